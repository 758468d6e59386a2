/* P31: a transmitted rendering matrix turns the scene into loudspeaker signals as it is written.  Enumerated: orders,
 * layouts, the ways a matrix may be written, and its place among others.  Every coefficient of the scene is played alone;
 * what each loudspeaker plays has to be the gain written for it. */
#define main p20_main
#include "p20.c"
#undef main
#include "layouts.h"
typedef struct
{
  int prec, norm, per, full, first, lfe, pos0, vert;
  int allv, anyv, alls, anys;
  unsigned vp, sp;
  int mx[7], mn[7]; /* gains from mx down to mn dB */
  int zero, has;    /* of 8 */
  unsigned seed;
} hx_t;
static unsigned hx_rnd(unsigned *s)
{
  *s = *s * 1664525u + 1013904223u;
  return *s >> 10;
}
static void hx_range(bw_t *b, int v, int n)
{
  int k = 0;
  while (n >> (k + 1))
    k++;
  int u = (1 << (k + 1)) - n;
  if (v < u)
    bw_put(b, v, k);
  else
    bw_put(b, v + u, k + 1);
}
/* M[coefficient][loudspeaker] */
static void hx_write(bw_t *b, const hx_t *h, int order, int cicp, double M[49][24])
{
  const spk *s = lay[cicp];
  int nt = sx_cicp_nch(cicp), nc = (order + 1) * (order + 1), mate[24], pidx[24], lead[24], used[24] = {0}, np = 0, lfe = 0, lr = 0;
  unsigned r = h->seed * 2654435761u + 99;
  for (int i = 0; i < nt; i++)
    lfe |= s[i].lfe;
  bw_put(b, h->prec, 2);
  bw_put(b, h->norm, 1);
  bw_put(b, h->per, 1);
  for (int o = 0; o <= (h->per ? order : 0); o++)
  {
    bw_esc(b, -h->mx[o], 3, 5, 6);
    bw_esc(b, h->mx[o] - h->mn[o] - 1, 4, 5, 6);
  }
  bw_put(b, h->full, 1);
  if (!h->full)
  {
    int n = 0;
    while (1 << n < order + 1)
      n++;
    bw_put(b, h->first, n);
  }
  if (lfe)
    bw_put(b, lr = h->lfe, 1);
  for (int i = 0; i < nt; i++)
  {
    mate[i] = pidx[i] = -1;
    lead[i] = 0;
  }
  for (int i = 0; i < nt; i++)
    if (!used[i] && s[i].az && abs(s[i].az) != 180)
      for (int j = i + 1; j < nt; j++)
        if (!used[j] && s[j].az == -s[i].az && s[j].el == s[i].el && s[j].lfe == s[i].lfe)
        {
          used[i] = used[j] = 1;
          mate[i] = j;
          if (lr || !s[i].lfe)
            pidx[i] = np++, lead[i] = 1;
          break;
        }
  int v[24] = {0}, g[24] = {0};
  bw_put(b, h->pos0, 1);
  bw_put(b, h->allv, 1);
  if (h->allv)
    for (int i = 0; i < np; i++)
      v[i] = 1;
  else
  {
    bw_put(b, h->anyv, 1);
    if (h->anyv)
    {
      for (int i = 0; i < np; i++)
        bw_put(b, v[i] = h->vp >> i & 1, 1);
      bw_put(b, h->anys, 1);
      if (h->anys)
        for (int i = 0; i < np; i++)
          if (!v[i])
            bw_put(b, g[i] = h->sp >> i & 1, 1);
    }
    else
    {
      bw_put(b, h->alls, 1);
      if (h->alls)
        for (int i = 0; i < np; i++)
          g[i] = 1;
      else
      {
        bw_put(b, h->anys, 1);
        if (h->anys)
          for (int i = 0; i < np; i++)
            bw_put(b, g[i] = h->sp >> i & 1, 1);
      }
    }
  }
  bw_put(b, h->vert, 1);
  static int sg[49][24];
  double fro = 0;
  for (int c = 0, n = 0, m = 0; c < nc; c++)
  {
    int ss = m >= 0 ? 1 : -1, vc = abs(m) != n, sparse = !h->full && c >= h->first * h->first;
    int mx = h->mx[h->per ? n : 0], mn = h->mn[h->per ? n : 0], N = ((mx - mn) << h->prec) + 2;
    for (int j = nt - 1; j >= 0; j--)
    {
      M[c][j] = 0;
      sg[c][j] = 1;
      if (vc && !h->vert)
        continue;
      if (lead[j] && v[pidx[j]])
      {
        M[c][j] = M[c][mate[j]];
        sg[c][j] = ss * sg[c][mate[j]];
        continue;
      }
      if (s[j].lfe && !lr)
        continue;
      if (sparse)
      {
        int has = (int)(hx_rnd(&r) & 7) < h->has;
        bw_put(b, has, 1);
        if (!has)
          continue;
      }
      int k = (int)(hx_rnd(&r) & 7) < h->zero ? N - 1 : (hx_rnd(&r) & 7) == 0 ? N - 2 : (int)(hx_rnd(&r) % (unsigned)(N - 1));
      hx_range(b, k, N);
      M[c][j] = k == N - 1 ? 0 : pow(10, (mx - k / (double)(1 << h->prec)) / 20);
      if (lead[j] && g[pidx[j]])
        sg[c][j] = ss * sg[c][mate[j]];
      else if (k < N - 1 && (n || !h->pos0))
      {
        int bit = hx_rnd(&r) & 1;
        bw_put(b, bit, 1);
        sg[c][j] = bit ? 1 : -1;
      }
    }
    for (int j = 0; j < nt; j++)
    {
      M[c][j] *= sg[c][j] / sqrt(2 * n + 1);
      if (!s[j].lfe)
        fro += M[c][j] * M[c][j];
    }
    if (m++ == n)
      n++, m = -n;
  }
  if (h->norm)
    for (int c = 0; c < nc; c++)
      for (int j = 0; j < nt; j++)
        if (!s[j].lfe)
          M[c][j] /= sqrt(fro);
}
static blob hmk(int order, int ref, const bw_t *ext, int before)
{
  ho_cfg c;
  ho_default(&c, order, 1, -1);
  int n = ho_n(&c), nf = 2 * n + 1;
  static ho_fr f[NFMAX];
  sb_t *s = sb_new();
  sy_cfg_default(&s->cfg, ref);
  s->cfg.fs_idx = 3;
  ho_add(s, &c);
  if (ext)
  {
    s->cfg.has_ext = 1;
    bw_init(&s->cfg.cfgext);
    bw_esc(&s->cfg.cfgext, before, 2, 4, 8);
    for (int i = 0; i < before; i++)
    {
      bw_esc(&s->cfg.cfgext, 0, 4, 8, 16);
      bw_esc(&s->cfg.cfgext, 3 + i, 4, 8, 16);
      for (int k = 0; k < 3 + i; k++)
        bw_put(&s->cfg.cfgext, 0xA5, 8);
    }
    bw_esc(&s->cfg.cfgext, 4, 4, 8, 16);
    bw_esc(&s->cfg.cfgext, bw_len(ext), 4, 8, 16);
    bw_bytes(&s->cfg.cfgext, ext->d, bw_len(ext));
  }
  sb_config(s);
  sb_channels(s);
  for (int i = 0; i < nf; i++)
  {
    tone(&s->ch[0], 3, 0, i);
    ho_fr0(&f[i]);
    f[i].ch[0].type = HT_AMB;
    f[i].ch[0].amb = (i / 2 < n ? i / 2 : 0) + 1;
    ho_md(s, ho_ext, &c, &f[i]);
    sb_frame(s, i == 0);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  if (ext)
    bw_free(&s->cfg.cfgext);
  sb_del(s);
  return b;
}
static void scene(int order, int ref, int tgt, const bw_t *ext, int before, double M[49][24])
{
  int n = (order + 1) * (order + 1), nf = 2 * n + 1, nt = sx_cicp_nch(tgt);
  signals(4, 99, 3);
  blob b = hmk(order, ref, ext, before);
  dec_defaults(&D);
  D.in.ui_pcm_wd_sz = 32;
  D.in.ui_cicp_layout_idx = tgt;
  int e = dec_all(&D, b, 0), bad = 0;
  long N = D.out.i_num_chan ? D.npcm / 4 / D.out.i_num_chan : 0;
  if (e || D.out.i_num_chan != nt || N < (nf - 1) * T)
    vf_fail("no-output", "order %d to layout %d with a matrix: error %x, %ld samples of %d channels", order, tgt, e, N, D.out.i_num_chan);
  else
  {
    const int32_t *p = (int32_t *)D.pcm;
    double pk = 0;
    for (int t = 0; t < nf * T; t++)
      pk = fmax(pk, fabs(xs[0][t]));
    for (int k = 0; k < n && !bad; k++)
      for (int j = 0; j < nt && !bad; j++)
        for (int t = 2 * k * T; t < (2 * k + 2) * T && !bad; t++)
        {
          double y = p[(long)t * nt + j] / 65536.0, w = M[k][j] * xs[0][t];
          if (fabs(y - w) > 2e-5 * pk * fmax(1, fabs(M[k][j])) + 0.01)
          {
            vf_fail("matrix", "coefficient %d alone: loudspeaker %d plays %.3f at sample %d, the matrix has gain %.5f: %.3f (input %.1f)", k, j, y, t, M[k][j], w, xs[0][t]);
            bad = 1;
          }
        }
    vf_nontriv++;
    vf_trans += (long)n * nt * 2 * T;
    vf_outcome(vf_hash(D.pcm, D.npcm, order * 100 + tgt));
  }
  dec_close(&D);
  dec_free(&D);
  free(b.d);
}
static void hx_entry(bw_t *x, int id, int cicp, const bw_t *m)
{
  bw_put(x, id, 7);
  bw_put(x, cicp, 6);
  bw_esc(x, m->nbits, 8, 8, 12);
  bw_append(x, m);
}
static hx_t hway(int k, int order)
{
  hx_t h = {0};
  static const int rng[7][2] = {{0, -1}, {0, -15}, {-3, -30}, {-6, -21}, {-7, -23}, {-1, -17}, {-8, -55}};
  unsigned r = k * 747796405u + 77;
  h.seed = k;
  h.allv = k & 1;
  h.anyv = k >> 1 & 1;
  h.alls = k >> 2 & 1;
  h.anys = k >> 3 & 1;
  h.full = k >> 4 & 1;
  h.vert = k >> 5 & 1;
  h.lfe = k >> 6 & 1;
  h.per = hx_rnd(&r) & 1;
  h.pos0 = hx_rnd(&r) & 1;
  h.norm = hx_rnd(&r) % 3 == 0;
  h.prec = hx_rnd(&r) & 3;
  h.first = hx_rnd(&r) % (unsigned)(order + 1);
  h.vp = hx_rnd(&r), h.sp = hx_rnd(&r);
  int q = hx_rnd(&r);
  for (int o = 0; o < 7; o++)
    h.mx[o] = rng[(q + o) % 7][0], h.mn[o] = rng[(q + o) % 7][1];
  h.zero = hx_rnd(&r) % 3;
  h.has = 2 + hx_rnd(&r) % 6;
  return h;
}
static void hone(int order, int ref, int tgt, int k, int places)
{
  static double M[49][24], M2[49][24];
  hx_t h = hway(k, order);
  bw_t x, m, m2;
  bw_init(&m);
  hx_write(&m, &h, order, tgt, M);
  while (m.nbits > 255 + 255 + 4095)
  { /* longer than its length can tell */
    bw_free(&m);
    bw_init(&m);
    h.prec = 0, h.full = 0, h.first = 0, h.has = h.has > 1 ? h.has - 1 : 0;
    hx_write(&m, &h, order, tgt, M);
  }
  int n = 1 + places % 3, at = places / 3 % n;
  bw_init(&x);
  bw_put(&x, n, 5);
  for (int i = 0; i < n; i++)
    if (i == at)
      hx_entry(&x, i + 1, tgt, &m);
    else
    {
      int big = places / 9 & 1, to = big ? 15 : tgt == 10 ? 5 : 10; /* some have thousands of bits */
      hx_t o = hway(k + 40 + i, big ? 5 : 1);
      if (big)
        o.full = o.vert = 1, o.allv = 0, o.anyv = 0, o.prec = 2;
      bw_init(&m2);
      hx_write(&m2, &o, big ? 5 : 1, to, M2);
      if (m2.nbits > 4605 || (big && m2.nbits < 2100))
        vf_fail("size", "a matrix of %ld bits", m2.nbits);
      hx_entry(&x, i + 1, to, &m2);
      bw_free(&m2);
    }
  scene(order, ref, tgt, &x, places % 4, M);
  bw_free(&x);
  bw_free(&m);
}
/* one extension: -1 none, 0 empty, 1 for another layout, 2 and 3 for this one */
static int hext(bw_t *x, int kind, int order, int tgt)
{
  static double M[49][24];
  bw_t m;
  if (kind < 0)
    return 0;
  bw_init(x);
  bw_put(x, kind > 0, 5);
  if (kind > 0)
  {
    int to = kind > 1 ? tgt : tgt == 10 ? 5 : 10;
    hx_t h = hway(kind * 37 + 5, order);
    bw_init(&m);
    hx_write(&m, &h, order, to, M);
    hx_entry(x, kind, to, &m);
    bw_free(&m);
  }
  return 1;
}
static void hafter(int oa, int ka, int ob, int kb, int tgt)
{
  bw_t xa, xb;
  int ha = hext(&xa, ka, oa, tgt), hb = hext(&xb, kb, ob, tgt), nt = sx_cicp_nch(tgt), e[2];
  blob a = hmk(oa, tgt, ha ? &xa : 0, 0), b = hmk(ob, tgt, hb ? &xb : 0, 0), ab;
  ab.n = a.n + b.n;
  ab.d = malloc(ab.n);
  memcpy(ab.d, a.d, a.n);
  memcpy(ab.d + a.n, b.d, b.n);
  static dec_t E[2];
  for (int i = 0; i < 2; i++)
  {
    dec_defaults(&E[i]);
    E[i].in.ui_pcm_wd_sz = 32;
    E[i].in.ui_cicp_layout_idx = tgt;
    e[i] = dec_all(&E[i], i ? ab : b, 0);
    dec_close(&E[i]);
  }
  long n0 = E[0].npcm, n1 = E[1].npcm, w = 4L * nt, skip = 2048 * w;
  if (e[0] || e[1] || n1 <= n0 || n0 <= 2 * skip || E[1].out.i_num_chan != nt)
    vf_fail("after", "alone: code %x, %ld bytes; behind another: %x, %ld bytes", e[0], n0, e[1], n1);
  else
  {
    if (memcmp(E[0].pcm + skip, E[1].pcm + n1 - n0 + skip, n0 - skip))
      vf_fail("after", "a scene behind another one (matrix %d after %d) is rendered differently than alone", kb, ka);
    vf_trans += n0 / w;
    vf_nontriv++;
  }
  vf_outcome(vf_hash(E[1].pcm, n1, ka * 10 + kb));
  for (int i = 0; i < 2; i++)
    dec_free(&E[i]);
  if (ha)
    bw_free(&xa);
  if (hb)
    bw_free(&xb);
  free(a.d), free(b.d), free(ab.d);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  /* every order and layout */
  for (int order = 1; order <= 6; order++)
    for (int tgt = 1; tgt <= 19; tgt++)
    {
      if (!sx_cicp_nch(tgt) || tgt == 13)
        continue;
      for (int v = 0; v < (order > 3 && !vf_thorough ? 1 : vf_thorough ? 12 : 4); v++)
      {
        int k = order * 31 + tgt * 7 + v * 53;
        if (vf_case("order %d, layout %d, way %d", order, tgt, k & 127))
          hone(order, tgt, tgt, k, 0);
      }
    }
  /* every way */
  static const int pr[4][2] = {{1, 6}, {2, 19}, {3, 12}, {2, 15}};
  for (int i = 0; i < 4; i++)
    for (int k = 0; k < (vf_thorough ? 512 : 128); k++)
      if (vf_case("order %d, layout %d, way %d", pr[i][0], pr[i][1], k))
        hone(pr[i][0], pr[i][1], pr[i][1], k, 0);
  /* places, and reference layouts other than the target */
  for (int v = 0; v < 36; v++)
    if (vf_case("matrix among others %d", v))
      hone(1 + v % 3, v & 1 ? 6 : 2, v & 2 ? 6 : v & 4 ? 12 : 2, v * 3 + 7, v);
  /* configurations behind each other */
  for (int ka = -1; ka < 4; ka++)
    for (int kb = -1; kb < 4; kb++)
      for (int v = 0; v < 4; v++)
        if ((ka != kb || (v && v != 3)) && vf_case("order %d with matrix %d, then order %d with %d", v & 1 ? 2 : 1, ka, v & 2 ? 2 : 1, kb))
          hafter(v & 1 ? 2 : 1, ka, v & 2 ? 2 : 1, kb, 6);
  return vf_finish();
}
