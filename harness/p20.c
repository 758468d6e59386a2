/* P20: scene-based audio.  The rendering matrix is measured per order and layout (every coefficient alone) and must be a
 * fixed linear map; then everything the side information can say - ambient coefficients, base ambience, vectors in each
 * of their codings, directional signals, spatial prediction, gain corrections - is enumerated and the output of each
 * stream compared with the coefficient signals of an independent model rendered through that matrix. */
#include "vf.h"
#include "streams.h"
#include "layouts.h"
#include "hoa.h"
#include "hoatab.h"
#include "hoamat.h"

static dec_t D;
enum { T = 1024, NFMAX = 160 };
/* ---- transport signals */
static double *xs[HO_T];
static int xs_nf, xs_fs;
static void tone(fd_ch *x, int fs_idx, int c, int f)
{
  x->arith_reset = 1;
  if (fs_idx > 4)
    x->max_sfb = 40;
  sx_fill(x, fs_idx, 3 + c * 7 + (f % 3) * 50, 8);
  fd_gain(x, 144 + c % 3);
}
static void signals(int nch, int nf, int fs_idx)
{
  if (nf <= xs_nf && xs_fs == fs_idx && xs[nch - 1])
    return;
  for (int c = 0; c < HO_T; c++)
  {
    free(xs[c]);
    xs[c] = 0;
  }
  xs_nf = nf;
  xs_fs = fs_idx;
  for (int c = 0; c < nch; c++)
  {
    sb_t *s = sb_new();
    sx_layout(s, 1, "S");
    s->cfg.fs_idx = fs_idx;
    sb_config(s);
    sb_channels(s);
    for (int f = 0; f < nf; f++)
    {
      tone(&s->ch[0], fs_idx, c, f);
      sb_frame(s, f == 0);
    }
    blob b;
    b.d = sb_take(s, &b.n);
    dec_defaults(&D);
    D.in.ui_pcm_wd_sz = 32;
    D.in.ui_cicp_layout_idx = 1;
    int e = dec_all(&D, b, 0);
    xs[c] = calloc(nf * T, sizeof(double));
    long n = D.npcm / 4;
    if (e || D.out.i_num_chan != 1 || n > (long)nf * T || n < (nf - 1) * T)
      vf_fail("transport", "the transport signal %d alone: error %x, %ld samples", c, e, n);
    for (long t = 0; t < n && t < nf * T; t++)
    {
      int32_t v;
      memcpy(&v, D.pcm + 4 * t, 4);
      xs[c][t] = v / 65536.0;
    }
    dec_close(&D);
    dec_free(&D);
    free(b.d);
    sb_del(s);
  }
}
/* ---- decoding */
typedef struct
{
  double *y;
  long n;
  int nch, err;
} snd;
static snd play(const ho_cfg *c, const ho_fr *fr, int nf, int cicp, int fs_idx)
{
  snd o = {0};
  sb_t *s = sb_new();
  sy_cfg_default(&s->cfg, cicp);
  s->cfg.fs_idx = fs_idx;
  ho_add(s, c);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < nf; f++)
  {
    for (int i = 0; i < c->ntr; i++)
      tone(&s->ch[i], fs_idx, i, f);
    ho_md(s, ho_ext, c, &fr[f]);
    sb_frame(s, f == 0);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  dec_defaults(&D);
  D.in.ui_pcm_wd_sz = 32;
  D.in.ui_cicp_layout_idx = cicp;
  o.err = dec_all(&D, b, 0);
  o.nch = D.out.i_num_chan;
  o.n = o.nch ? D.npcm / 4 / o.nch : 0;
  o.y = calloc(o.n * o.nch + 1, sizeof(double));
  for (long t = 0; t < o.n * o.nch; t++)
  {
    int32_t v;
    memcpy(&v, D.pcm + 4 * t, 4);
    o.y[t] = v / 65536.0;
  }
  dec_close(&D);
  dec_free(&D);
  free(b.d);
  sb_del(s);
  vf_trans += nf;
  return o;
}
/* ---- the model */
static double sh(int n, int m, double ct, double ph)
{
  int a = abs(m);
  double st = sqrt(fmax(0, 1 - ct * ct)), pmm = 1, p, p1;
  for (int i = 1; i <= a; i++)
    pmm *= (2 * i - 1) * st;
  p = pmm;
  p1 = 0;
  for (int l = a + 1; l <= n; l++)
  {
    double p2 = p1;
    p1 = p;
    p = ((2 * l - 1) * ct * p1 - (l + a - 1) * p2) / (l - a);
  }
  double k = (2 * n + 1) * (a ? 2 : 1);
  for (int i = n - a + 1; i <= n + a; i++)
    k /= i;
  return sqrt(k) * p * (m < 0 ? sin(a * ph) : cos(a * ph));
}
static void yvec(double *y, int order, double ct, double ph)
{
  for (int n = 0, k = 0; n <= order; n++)
    for (int m = -n; m <= n; m++)
      y[k++] = sh(n, m, ct, ph);
}
static void grid900(double *y, int order, int d /* from 0 */)
{
  yvec(y, order, ht_fine_ci[d], ht_fine_az[d]);
}
static void coarse(double *y, int order, int of /* points of this order */, int j)
{
  if (of == 0)
    for (int k = 0; k < (order + 1) * (order + 1); k++)
      y[k] = k == 0;
  else
    yvec(y, order, ht_ci[of][j], ht_az[of][j]);
}
static void dict(double *y, const ho_cfg *c, int cb, int j)
{
  if (cb == 0)
    grid900(y, c->order, j);
  else if (cb <= 2)
    yvec(y, c->order, ht_spk_ci[j], ht_spk_az[j] * M_PI / 180);
  else if (cb == 3)
    yvec(y, c->order, 0, 2 * M_PI / 64 * (j + .745));
  else
    for (int k = 0; k < ho_n(c); k++)
      y[k] = ht_q[c->order][j * ho_n(c) + k];
}
static const int itimes[8] = {0, 64, 128, 256, 384, 512, 768, 1024};
static double wdir(int l) { return .5 * (1 - cos(M_PI * l / T)); }
static double wvec(const ho_cfg *c, int l)
{
  int t = itimes[c->itime];
  if (l >= t)
    return 1;
  return c->imethod ? .5 * (1 - cos(M_PI * l / t)) : (double)l / (t - 1);
}
typedef struct
{
  int type[HO_T], dir[HO_T], amb[HO_T];
  double vec[HO_T][49], nom[HO_T][49]; /* as used for the next frame, before scaling */
  double gain[HO_T];
  int pred, pact[49], pid[49][4];
  double pg[49][4];
} mstate;
static void vector(double *v, double *nom, const ho_cfg *c, const ho_fr *f, int i, const mstate *pv)
{
  const ho_ch *h = &f->ch[i];
  int n = ho_n(c);
  for (int k = 0; k < n; k++)
    v[k] = nom[k] = 0;
  if (h->nbits == 5)
  {
    for (int k = ho_first(c); k < n; k++)
    {
      int w = ho_sent(c, f, i, k) ? h->v[k] : 128;
      nom[k] = w / 128. - 1;
      v[k] = (c->order + 1) * nom[k];
    }
  }
  else if (h->nbits == 4)
  {
    double y[49], q = 1;
    if (h->nvq == 1)
    {
      dict(y, c, h->cb, h->vidx[0]);
      for (int k = 0; k < n; k++)
        v[k] = y[k] * (2 * h->sgn[0] - 1);
    }
    else
    {
      double s = 0;
      for (int j = 0; j < h->nvq; j++)
      {
        double w = ht_weight[h->widx * 8 + (j < 8 ? j : j % 2 + 6)] * (2 * h->sgn[j] - 1);
        dict(y, c, h->cb, h->vidx[j]);
        for (int k = 0; k < n; k++)
          v[k] += w * y[k];
      }
      for (int k = 0; k < n; k++)
        s += v[k] * v[k];
      if (h->cb != 2)
        q = (c->order + 1) / sqrt(s);
      for (int k = 0; k < n; k++)
        v[k] *= q;
    }
    for (int k = 0; k < n; k++)
    {
      if (k < ho_first(c) || !ho_sent(c, f, i, k))
        v[k] = 0;
      nom[k] = 2 * floor(16384 / (c->order + 1.) * v[k] + .5) / 32768;
    }
  }
  else
    for (int k = ho_first(c); k < n; k++)
    {
      if (ho_sent(c, f, i, k))
        nom[k] = h->hv[k] * pow(2, 1 - h->nbits) + (h->pflag ? pv->nom[i][k] : 0);
      v[k] = (c->order + 1) * nom[k];
    }
}
/* coefficient signals of frame no */
static void model(double *co /* [49][T] */, const ho_cfg *c, const ho_fr *f, int no, mstate *p)
{
  static double z[HO_T][T], pr[49][T], vc[49][T];
  static mstate q;
  int n = ho_n(c), na = ho_addl(c), mi = ho_min(c);
  memset(&q, 0, sizeof q);
  memset(co, 0, sizeof(double) * 49 * T);
  memset(pr, 0, sizeof pr);
  memset(vc, 0, sizeof vc);
  for (int i = 0; i < c->ntr; i++)
  {
    const ho_ch *h = &f->ch[i];
    double g = f->indep ? pow(2, h->g0) : p->gain[i];
    int e = h->ge == 1 ? 0 : h->ge == 2 ? -1 : h->ge - 2;
    for (int l = 0; l < T; l++)
      z[i][l] = xs[i][no * T + l] / g * (!e ? 1 : h->gx ? pow(2, e) : pow(.25 * cos(M_PI * l / 1023) + .75, -e));
    q.gain[i] = g * pow(2, -e);
    q.type[i] = i < na ? h->type : HT_AMB;
    q.dir[i] = h->dir;
    q.amb[i] = i >= na ? i - na + 1 : h->type == HT_AMB ? h->amb : 0;
  }
  /* ambience */
  for (int i = 0; i < na; i++)
    if (q.type[i] == HT_AMB)
      for (int l = 0; l < T; l++)
        co[(q.amb[i] - 1) * T + l] = z[i][l]; /* assigned, not added */
  for (int j = 0; j < mi && na + j < c->ntr; j++)
  {
    double y[49];
    coarse(y, c->min_amb, c->min_amb, j);
    for (int k = 0; k < mi; k++)
      for (int l = 0; l < T; l++)
        co[k * T + l] += y[k] * z[na + j][l];
  }
  /* vectors */
  for (int i = 0; i < na; i++)
  {
    int was = p->type[i], is = q.type[i];
    if (is == HT_VEC)
      vector(q.vec[i], q.nom[i], c, f, i, p);
    if (was == HT_VEC && (is == HT_VEC || is == HT_DIR))
      for (int k = 0; k < n; k++)
        for (int l = 0; l < T; l++)
          vc[k][l] += p->vec[i][k] * z[i][l] * (1 - (is == HT_VEC ? wvec(c, l) : wdir(l)));
    if (is == HT_VEC)
      for (int k = 0; k < n; k++)
        for (int l = 0; l < T; l++)
          vc[k][l] += q.vec[i][k] * z[i][l] * (was == HT_VEC || was == HT_DIR ? wvec(c, l) : 1);
  }
  /* prediction */
  q.pred = f->pred && c->single_layer;
  int nd = 0, dch[HO_T], anyd = 0;
  for (int i = 0; i < na; i++)
    if (q.type[i] == HT_DIR)
      dch[nd++] = i, anyd = 1;
  if (!anyd)
    q.pred = 0;
  else if (q.pred)
    for (int k = 0; k < n; k++)
    {
      q.pact[k] = f->pact[k];
      for (int j = 0; j < c->preddirs; j++)
        if (f->pact[k])
        {
          q.pid[k][j] = f->pid[k][j] ? dch[f->pid[k][j] - 1] + 1 : 0;
          q.pg[k][j] = pow(2, 1 - c->sfbits) * (f->pgain[k][j] + .5);
        }
    }
  for (int w = 0; w < 2; w++)
  {
    const mstate *m = w ? &q : p;
    if (m->pred)
      for (int g = 0; g < n; g++)
        if (m->pact[g])
        {
          double y[49];
          coarse(y, c->order, c->order, g);
          for (int j = 0; j < c->preddirs && m->pid[g][j]; j++)
            for (int k = 0; k < n; k++)
              for (int l = 0; l < T; l++)
                pr[k][l] += y[k] * m->pg[g][j] * z[m->pid[g][j] - 1][l] *
                            (q.type[m->pid[g][j] - 1] == HT_AMB || q.type[m->pid[g][j] - 1] == HT_NONE ? 0 : w ? wdir(l) : 1 - wdir(l));
        }
  }
  for (int i = 0; i < na; i++)
    if (q.type[i] == HT_AMB)
    {
      int k = q.amb[i] - 1, st = f->ch[i].state;
      for (int l = 0; l < T; l++)
      {
        if (!st)
          pr[k][l] = 0;
        else if (st == 1 && q.pred)
          pr[k][l] *= 1 - wdir(l);
        else if (st == 2 && p->pred)
          pr[k][l] *= wdir(l);
        if (c->vlen == 1 && st)
          vc[k][l] *= st == 1 ? 1 - wdir(l) : wdir(l);
      }
      if (c->vlen == 1 && st == 1)
        for (int j = 0; j < na; j++)
          q.vec[j][k] = 0;
    }
  /* directional signals */
  for (int i = 0; i < na; i++)
  {
    double y[49];
    int was = p->type[i], is = q.type[i];
    if (was == HT_DIR && p->dir[i] && (is == HT_DIR || is == HT_VEC))
    {
      grid900(y, c->order, p->dir[i] - 1);
      for (int k = 0; k < n; k++)
        for (int l = 0; l < T; l++)
          co[k * T + l] += y[k] * z[i][l] * (is == HT_VEC ? 1 - wvec(c, l) : q.dir[i] ? 1 - wdir(l) : 1);
    }
    if (is == HT_DIR && q.dir[i])
    {
      grid900(y, c->order, q.dir[i] - 1);
      for (int k = 0; k < n; k++)
        for (int l = 0; l < T; l++)
          co[k * T + l] += y[k] * z[i][l] * (was == HT_VEC || (was == HT_DIR && p->dir[i]) ? wdir(l) : 1);
    }
  }
  for (int k = 0; k < n; k++)
    for (int l = 0; l < T; l++)
      co[k * T + l] += vc[k][l] + pr[k][l];
  *p = q;
}
/* ---- the rendering matrix */
static double R[24][49];
static int R_order = -1, R_cicp, R_nch, R_fs;
static double R_res;
static int measure(int order, int cicp, int fs_idx)
{
  if (R_order == order && R_cicp == cicp && R_fs == fs_idx)
    return 0;
  R_order = -1;
  ho_cfg c;
  ho_default(&c, order, 1, -1);
  int n = ho_n(&c), nf = 2 * n + 1;
  static ho_fr fr[NFMAX];
  for (int f = 0; f < nf; f++)
  {
    ho_fr0(&fr[f]);
    fr[f].ch[0].type = HT_AMB;
    fr[f].ch[0].amb = (f / 2 < n ? f / 2 : 0) + 1;
  }
  signals(4, 99, fs_idx);
  snd o = play(&c, fr, nf, cicp, fs_idx);
  if (o.err || o.n < (nf - 1) * T || o.nch > 24)
  {
    vf_fail("no-output", "order %d rendered to layout %d: error %x, %ld samples of %d channels for %d frames", order, cicp, o.err, o.n, o.nch,
            nf);
    free(o.y);
    return -1;
  }
  R_nch = o.nch;
  R_res = 0;
  double pk = 0;
  for (int k = 0; k < n; k++)
    for (int s = 0; s < o.nch; s++)
    {
      double xy = 0, xx = 0;
      for (int t = 2 * k * T; t < (2 * k + 1) * T; t++)
        xy += xs[0][t] * o.y[t * o.nch + s], xx += xs[0][t] * xs[0][t];
      R[s][k] = xy / xx;
      for (int t = 2 * k * T; t < (2 * k + 2) * T; t++)
      {
        double d = fabs(R[s][k] * xs[0][t] - o.y[t * o.nch + s]);
        R_res = fmax(R_res, d);
        pk = fmax(pk, fabs(xs[0][t]));
      }
    }
  R_res /= pk;
  free(o.y);
  R_order = order;
  R_cicp = cicp;
  R_fs = fs_idx;
  return 0;
}
static void structure(int order, int cicp)
{
  int n = (order + 1) * (order + 1);
  const spk *p = lay[cicp];
  double pk = 0, wm = 0, gm = 0;
  for (int i = 0; i < R_nch; i++)
    for (int k = 0; k < n; k++)
      pk = fmax(pk, fabs(R[i][k]));
  const short *g = hm[order][cicp];
  if (getenv("VF_GOLD"))
  {
    printf("static const short hm_%d_%d[] = {", order, cicp);
    for (int i = 0, c = 0; i < R_nch; i++)
      for (int k = 0; k < n; k++)
        printf("%s%d", c++ % 20 ? ", " : c > 1 ? ",\n" : "\n", (int)lrint(R[i][k] * 20000));
    printf("};\n");
    return;
  }
  for (int i = 0; i < R_nch; i++)
    for (int k = 0; k < n; k++)
    {
      double d = fabs(R[i][k] - g[i * n + k] / 20000.) / pk;
      if (d > gm)
        gm = d;
      if (d > 2e-3)
      {
        vf_fail("matrix", "order %d layout %d: coefficient %d reaches loudspeaker %d with %.5f, not %.5f", order, cicp, k, i, R[i][k], g[i * n + k] / 20000.);
        return;
      }
    }
  int loc = 0, tot = 0;
  double emin = 1e9, emax = 0;
  for (int i = 0; i < R_nch; i++)
  {
    for (int k = 0; k < n && p[i].lfe; k++)
      if (R[i][k])
        vf_fail("lfe", "order %d layout %d: coefficient %d reaches the LFE %d with %g", order, cicp, k, i, R[i][k]);
    if (p[i].lfe)
      continue;
    int j = find(cicp, p[i].az == 180 ? 180 : -p[i].az, p[i].el, 0);
    for (int a = 0, k = 0; a <= order; a++)
      for (int m = -a; m <= a; m++, k++)
        wm = fmax(wm, fabs(R[i][k] - (m < 0 ? -1 : 1) * R[j][k]) / pk);
    double y[49], e = 0, best = -1e9;
    int bi = -1;
    yvec(y, order, sin(p[i].el * M_PI / 180), p[i].az * M_PI / 180);
    for (int q = 0; q < R_nch; q++)
    {
      double v = 0;
      for (int k = 0; k < n; k++)
        v += R[q][k] * y[k];
      e += v * v;
      if (v > best)
        best = v, bi = q;
    }
    tot++, loc += bi == i;
    emin = fmin(emin, e), emax = fmax(emax, e);
  }
  if (wm > .1)
    vf_fail("lopsided", "order %d layout %d: the two sides differ by %.3f of the largest factor", order, cicp, wm);
  if (order > 3 && loc < tot)
    vf_fail("misplaced", "order %d layout %d: waves from the direction of a loudspeaker are loudest elsewhere, %d of %d", order, cicp, tot - loc, tot);
  if (emin < .85 || emax > 1.75)
    vf_fail("energy", "order %d layout %d: plane waves come out with %.3f to %.3f of their energy", order, cicp, emin, emax);
}
static int check(const char *sig, const ho_cfg *c, const ho_fr *fr, int nf, int cicp, const char *what)
{
  static double co[49 * T];
  static mstate st;
  signals(c->ntr > 4 ? HO_T : 4, 99, 3);
  if (measure(c->order, cicp, 3))
    return 1;
  snd o = play(c, fr, nf, cicp, 3);
  if (o.err || o.n < (nf - 1) * T || o.nch != R_nch)
  {
    vf_fail("no-output", "%s: error %x, %ld samples of %d channels for %d frames", what, o.err, o.n, o.nch, nf);
    free(o.y);
    return 1;
  }
  memset(&st, 0, sizeof st);
  for (int i = 0; i < HO_T; i++)
    st.gain[i] = 1, st.type[i] = HT_NONE;
  int bad = 0;
  for (int f = 0; f < nf && !bad; f++)
  {
    model(co, c, &fr[f], f, &st);
    double big = 0, sum = 0;
    for (int i = 0; i < ho_n(c) * T; i++)
      big = fmax(big, fabs(co[i]));
    for (int s = 0; s < o.nch && !bad; s++)
      for (int l = 0; l < T && f * T + l < o.n; l++)
      {
        double r = 0, y = o.y[(f * T + l) * o.nch + s];
        for (int k = 0; k < ho_n(c); k++)
          r += R[s][k] * co[k * T + l];
        sum += fabs(r);
        double e = fabs(r - y), tol = 2e-5 * big + 2e-4;
        if (!(e <= tol))
        {
          vf_fail(sig, "%s: frame %d sample %d loudspeaker %d: %.4f, the coefficient signals give %.4f (largest %.1f)", what, f, l, s, y, r, big);
          bad = 1;
          break;
        }
      }
    if (sum > 0)
    {
      vf_nontriv++;
      vf_outcome((uint64_t)(sum * 16) ^ (uint64_t)f << 50);
      if (f == 3)
        vf_sample("%s: frame %d: output of magnitude %.1f as the model gives it", what, f, sum / T);
    }
  }
  free(o.y);
  return bad;
}
static const char *say(const char *f, ...)
{
  static char b[300];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
static ho_fr fr[NFMAX];
/* one channel, vectors one after the other without cross fading */
static void vectors(int order, int layout, int bits)
{
  ho_cfg c;
  ho_default(&c, order, 1, -1);
  int n = ho_n(&c), total = n * 256, step = vf_thorough || order < 3 ? 1 : order < 5 ? 7 : 41;
  (void)bits;
  for (int a = 0; a < total;)
  {
    int nf = 0, a0 = a;
    for (; nf < NFMAX - 62 && a < total; nf++, a += step)
    {
      ho_fr0(&fr[nf]);
      ho_ch *h = &fr[nf].ch[0];
      h->type = HT_VEC;
      h->nbits = 5;
      for (int k = 0; k < n; k++)
        h->v[k] = 128;
      h->v[a / 256] = a % 256;
      fr[nf].indep = nf % 3 != 1;
    }
    if (vf_case("vectors of eight-bit elements, order %d, layout %d, from element %d value %d", order, layout, a0 / 256, a0 % 256))
      check("vector", &c, fr, nf, layout, say("order %d: element %d, values from %d", order, a0 / 256, a0 % 256));
  }
}
static void quantized(int order, int layout)
{
  ho_cfg c;
  ho_default(&c, order, 1, -1);
  static const int size[8] = {900, 34, 34, 64};
  for (int cb = 0; cb < 8; cb++)
  {
    int n = cb == 7 ? (order == 4 ? 32 : ho_n(&c)) : size[cb];
    for (int nvq = 1; n && nvq <= (1 << c.vqbits); nvq = nvq == 1 ? 2 : nvq == 2 ? 3 : nvq * 2 > 9 && nvq < 8 ? 8 : nvq * 2)
      for (int a = 0; a < n;)
      {
        int nf = 0, a0 = a;
        for (; nf < 90 && a < n; nf++, a++)
        {
          ho_fr0(&fr[nf]);
          ho_ch *h = &fr[nf].ch[0];
          h->type = HT_VEC;
          h->nbits = 4;
          h->cb = cb;
          h->nvq = nvq;
          h->widx = (a * 37 + nvq) & 255;
          for (int j = 0; j < nvq; j++)
          {
            h->vidx[j] = (a + j * 13) % n;
            h->sgn[j] = (a + j) & 1;
          }
          fr[nf].indep = nf % 3 != 1;
        }
        if (vf_case("vectors from codebook %d, order %d, layout %d, %d entries each, from %d", cb, order, layout, nvq, a0))
          check("codebook", &c, fr, nf, layout, say("order %d codebook %d, %d entries, from %d", order, cb, nvq, a0));
      }
  }
}
static void directions(int order, int layout)
{
  ho_cfg c;
  ho_default(&c, order, 1, -1);
  for (int a = 0; a < 900;)
  {
    int nf = 0, a0 = a;
    for (; nf < 90 && a < 900; nf++, a++)
    {
      ho_fr0(&fr[nf]);
      fr[nf].ch[0].type = HT_DIR;
      fr[nf].ch[0].dir = a + 1;
      fr[nf].indep = nf % 3 != 1;
    }
    if (vf_case("directional signals, order %d, layout %d, directions from %d", order, layout, a0 + 1))
      check("direction", &c, fr, nf, layout, say("order %d directions from %d", order, a0 + 1));
  }
}
static void ambience(int order, int layout)
{
  for (int m = 0; m <= order && (m + 1) * (m + 1) <= 16; m++)
    for (int ntr = (m + 1) * (m + 1); ntr <= 16; ntr++)
    {
      ho_cfg c;
      ho_default(&c, order, ntr, m);
      for (int f = 0; f < 8; f++)
      {
        ho_fr0(&fr[f]);
        fr[f].indep = f % 3 != 1;
      }
      if (ntr > (m + 1) * (m + 1) + 1 && ntr < 15)
        continue;
      if (vf_case("base ambience of order %d in order %d, %d channels, layout %d", m, order, ntr, layout))
        check("ambience", &c, fr, 8, layout, say("order %d base %d", order, m));
    }
}
static void gains(void)
{
  ho_cfg c;
  ho_default(&c, 1, 1, -1);
  c.max_exp = 7;
  int base = ho_clog2((int)(1.5 * ho_n(&c)));
  for (int g0 = -base; g0 < -base + (1 << ho_clog2(base + c.max_exp + 1)); g0++)
    for (int ge = 1; ge <= 14; ge++)
      for (int gx = 0; gx < 2; gx++)
        if (vf_case("gain correction: gain 2^%d before, code %d%s, undone afterwards", g0, ge, gx ? ", exception" : ""))
        {
          int e = ge == 1 ? 0 : ge == 2 ? -1 : ge - 2;
          if (e - g0 > 4 || e - g0 < -14) /* beyond full scale, or too faint to see */
            continue;
          for (int f = 0; f < 24; f++)
          {
            ho_fr0(&fr[f]);
            ho_ch *h = &fr[f].ch[0];
            h->type = HT_AMB;
            h->amb = 1 + f % 4;
            fr[f].indep = f == 0;
            h->g0 = g0;
            h->ge = 1;
            if (f)
              h->type = HT_DIR, h->dir = 500;
            if (f == 2)
              h->ge = ge, h->gx = gx;
            if (f > 3 && f < 4 + e)
              h->ge = 2, h->gx = f & 1; /* halve again, step by step */
            if (f == 20 && e < 0)
              h->ge = 3;
          }
          check("gain", &c, fr, 24, 6, say("gain 2^%d code %d exception %d", g0, ge, gx));
        }
}
/* several transports, each with a gain of its own that goes its own way, independent frames on the way */
static void many_gains(void)
{
  ho_cfg c;
  for (int ntr = 2; ntr <= 4; ntr++)
    for (int per = 1; per <= 7; per += 2)
      for (int m = 0; m < (vf_thorough ? 32 : 6); m++)
        if (vf_case("gains of %d transports, an independent frame every %d, pattern %d", ntr, per, m))
        {
          int lev[4];
          uint32_t r = 7u + m * 2654435761u + per * 97 + ntr;
          ho_default(&c, 1, ntr, -1);
          c.max_exp = 7;
          for (int i = 0; i < ntr; i++)
            lev[i] = (i * 2 + m) % 4 - 2;
          for (int f = 0; f < 24; f++)
          {
            ho_fr0(&fr[f]);
            fr[f].indep = f % per == 0;
            for (int i = 0; i < ntr; i++)
            {
              ho_ch *h = &fr[f].ch[i];
              int e;
              if ((i + m) % 2)
                h->type = HT_DIR, h->dir = 100 + 200 * i;
              else
                h->type = HT_AMB, h->amb = 1 + i;
              h->g0 = -lev[i];
              r = r * 1664525u + 1013904223u;
              e = (int)(r >> 28) % 5 - 1;
              if (e > 2 || lev[i] + e > 1)
                e = lev[i] > -2 ? -1 : 0;
              if (lev[i] + e < -3)
                e = 0;
              h->ge = e ? (e < 0 ? 2 : e + 2) : 1;
              h->gx = e && (r >> 20 & 1);
              lev[i] += e;
            }
          }
          check("gains", &c, fr, 24, 6, say("%d transports, pattern %d", ntr, m));
        }
}

/* Huffman coded vector elements: the word of the table for symbol s is written from the code book in the standard */
static void huff(bw_t *b, const ho_cfg *c, const ho_ch *h, int coef)
{
  int q = h->nbits, v = h->hv[coef], a = abs(v), sym = 0, t = h->cbflag ? (coef + 1 >= 10 ? 3 : coef + 1 >= 5 ? 2 : 1) : h->pflag ? 4 : 5;
  while (a >> sym)
    sym++;
  const int(*w)[3] = ht_huff[q - 6][t - 1];
  for (int i = 0; i < q; i++)
    if (w[i][0] == sym)
    {
      bw_put(b, w[i][2], w[i][1]);
      if (sym)
      {
        bw_put(b, v > 0, 1);
        if (sym > 1)
          bw_put(b, a - (1 << (sym - 1)), sym - 1);
      }
      return;
    }
  abort();
}
enum { X_D1, X_D2, X_D0, X_V1, X_V2, X_VQ1, X_VQ3, X_HUF, X_AMB, X_IN, X_OUT, X_NONE, X_N };
static const char *xname[X_N] = {"direction 101", "direction 777", "no direction", "vector A", "vector B", "one entry of a codebook",
                                 "three entries of a codebook", "Huffman coded vector", "coefficient", "coefficient appearing", "coefficient leaving", "nothing"};
static void state(ho_ch *h, const ho_cfg *c, int x, int i, int f)
{
  int n = ho_n(c);
  memset(h, 0, sizeof *h);
  h->ge = 1;
  h->nvq = 1;
  h->nbits = 5;
  h->type = x <= X_D0 ? HT_DIR : x <= X_HUF ? HT_VEC : x <= X_OUT ? HT_AMB : HT_NONE;
  if (x == X_D1 || x == X_D2)
    h->dir = (x == X_D1 ? 101 : 777) + i;
  for (int k = 0; k < n; k++)
  {
    h->v[k] = (k * 53 + i * 31 + (x == X_V1 ? 20 : 150)) & 255;
    h->hv[k] = (k * 7 + i * 5 + f) % 31 - 15;
  }
  if (x == X_VQ1 || x == X_VQ3)
  {
    h->nbits = 4;
    h->nvq = x == X_VQ1 || c->vqbits < 2 ? 1 : 3;
    h->cb = (i + 1) % 4;
    h->widx = 40 + i * 3;
    for (int j = 0; j < h->nvq; j++)
      h->vidx[j] = (i * 11 + j * 3 + 2) % 34, h->sgn[j] = (i + j) & 1;
  }
  if (x == X_HUF)
    h->nbits = 6 + i % 3, h->cbflag = i & 1;
  if (h->type == HT_AMB)
  {
    h->amb = ho_min(c) + 1 + i % (n - ho_min(c));
    h->state = x == X_AMB ? 0 : x == X_IN ? 1 : 2;
  }
}
/* what may be sent without repeating everything, and what follows from the frame before */
static void depend(ho_fr *f, const ho_fr *p, const ho_cfg *c, int want)
{
  int dep = want && p != 0;
  for (int i = 0; i < ho_addl(c); i++)
  {
    ho_ch *h = &f->ch[i];
    const ho_ch *q = p ? &p->ch[i] : 0;
    if (h->type == HT_AMB && (h->state || !q || q->type != HT_AMB || q->amb != h->amb))
      dep = 0;
    h->newvec = h->type == HT_VEC && (!q || q->type != HT_VEC);
  }
  f->indep = !dep;
  for (int i = 0; i < ho_addl(c); i++)
  {
    ho_ch *h = &f->ch[i];
    const ho_ch *q = p ? &p->ch[i] : 0;
    h->pflag = dep && h->type == HT_VEC && h->nbits >= 6 && q->type == HT_VEC && (i + h->hv[0]) % 2;
    h->rep = dep && h->type == HT_VEC && q->type == HT_VEC && q->nbits == h->nbits && q->cb == h->cb && q->nvq == h->nvq &&
             q->cbflag == h->cbflag && q->pflag == h->pflag;
    /* nothing may leave the range of the vectors */
    if (h->pflag)
      for (int k = 0; k < ho_n(c); k++)
        h->hv[k] = h->hv[k] / 4;
  }
}
static void mixed(int order, int min_amb, int vlen, int layout)
{
  ho_cfg c;
  ho_default(&c, order, 3 + (min_amb + 1) * (min_amb + 1), min_amb);
  c.vlen = vlen;
  c.itime = 5;
  c.imethod = order & 1;
  static const int set[] = {X_D1, X_V1, X_VQ1, X_VQ3, X_HUF, X_AMB, X_NONE};
  for (int t = 0; t < 343; t++)
    if (vf_case("three signals of order %d, base %d, vector length %d: %s, %s, %s", order, min_amb, vlen, xname[set[t % 7]], xname[set[t / 7 % 7]],
                xname[set[t / 49]]))
    {
      for (int f = 0; f < 6; f++)
      {
        ho_fr0(&fr[f]);
        for (int i = 0, d = 1; i < 3; i++, d *= 7)
          state(&fr[f].ch[i], &c, set[t / d % 7], i, f);
        depend(&fr[f], f ? &fr[f - 1] : 0, &c, f % 3);
      }
      check("mixed", &c, fr, 6, layout, say("order %d base %d length %d: %s, %s, %s", order, min_amb, vlen, xname[set[t % 7]], xname[set[t / 7 % 7]],
                                            xname[set[t / 49]]));
    }
}
static void changes(int order, int min_amb, int vlen, int itime, int imethod, int layout)
{
  ho_cfg c;
  ho_default(&c, order, 3 + (min_amb + 1) * (min_amb + 1), min_amb);
  c.vlen = vlen;
  c.itime = itime;
  c.imethod = imethod;
  for (int a = 0; a < X_N; a++)
    for (int b = 0; b < X_N; b++)
      if (vf_case("changes of order %d, base %d, vector length %d, %d samples, method %d: %s, then %s, then everything", order, min_amb, vlen,
                  itimes[itime], imethod, xname[a], xname[b]))
      {
        int nf = 3 * X_N;
        for (int f = 0; f < nf; f++)
        {
          ho_fr0(&fr[f]);
          int seq = f % 3 == 0 ? a : f % 3 == 1 ? b : f / 3;
          int nx = (f + 1) % 3 == 0 ? a : (f + 1) % 3 == 1 ? b : (f + 1) / 3 % X_N;
          state(&fr[f].ch[0], &c, seq, 0, f);
          state(&fr[f].ch[1], &c, nx, 1, f);
          state(&fr[f].ch[2], &c, X_V1, 2, f);
          depend(&fr[f], f ? &fr[f - 1] : 0, &c, f % 5);
        }
        check("change", &c, fr, nf, layout, say("order %d base %d length %d, %d samples method %d: %s, %s, ...", order, min_amb, vlen, itimes[itime],
                                                imethod, xname[a], xname[b]));
      }
}
static void prediction(int order, int min_amb, int layout)
{
  for (int preds = 1; preds <= 4; preds++)
    for (int sf = 1; sf <= 16; sf += 5)
      for (int sig = 1; sig <= 3; sig++)
        for (int a = 0; a < 5; a++)
          if ((vf_thorough || (preds + sf / 5 + sig + a + order) % 4 == 0) && vf_case("spatial prediction of order %d, base %d: up to %d signals of %d, %d bits, case %d", order, min_amb, preds, sig, sf, a))
          {
            ho_cfg c;
            ho_default(&c, order, 4 + (min_amb + 1) * (min_amb + 1), min_amb);
            c.preddirs = preds;
            c.sfbits = sf;
            int nf = 14, n = ho_n(&c);
            for (int f = 0; f < nf; f++)
            {
              ho_fr0(&fr[f]);
              for (int i = 0; i < 4; i++)
                state(&fr[f].ch[i], &c, i < sig ? (f == 9 ? X_V1 : X_D1) : a == 3 ? (f % 4 == 0 ? X_IN : f % 4 == 3 ? X_OUT : X_AMB) : X_V2, i, f);
              depend(&fr[f], f ? &fr[f - 1] : 0, &c, f % 3);
              int on = f >= 1 && f != 4 && f != 5 && (a != 1 || f % 2);
              fr[f].pred = on;
              fr[f].pkind = f % 2 && n > 4;
              int lim = 1;
              while (lim * ho_clog2(n) + ho_clog2(lim) < n)
                lim++;
              int left = fr[f].pkind ? (lim - 1 > 1 ? lim - 1 : 1) : n;
              for (int k = 0; k < n; k++)
              {
                fr[f].pact[k] = left > 0 && (a == 0 ? k == f % n : (k * 5 + f) % 4 < 2);
                left -= fr[f].pact[k];
                for (int j = 0; j < preds; j++)
                {
                  fr[f].pid[k][j] = 1 + (j + k) % sig;
                  fr[f].pgain[k][j] = (k * 37 + j * 11 + f * 5) % (1 << sf);
                }
              }
              int any = 0;
              for (int k = 0; k < n; k++)
                any |= fr[f].pact[k];
              if (!any)
                fr[f].pact[0] = 1;
            }
            check("prediction", &c, fr, nf, layout, say("order %d base %d, %d of %d signals, %d bits, case %d", order, min_amb, preds, sig, sf, a));
          }
}
static void huffman(int order, int layout)
{
  ho_cfg c;
  ho_default(&c, order, 2, -1);
  int n = ho_n(&c);
  for (int q = 6; q < 16; q++)
    for (int cbf = 0; cbf < 2; cbf++)
      for (int two = 0; two < 2; two++)
        if (vf_case("Huffman coded vectors of order %d, %d bits, %s, %s", order, q, cbf ? "codebooks by element" : "one codebook",
                    two ? "second signal" : "first signal"))
        {
          int nf = 0;
          for (int sym = 0; sym < q; sym++)
            for (int w = 0; w < 4; w++, nf++)
            {
              ho_fr0(&fr[nf]);
              state(&fr[nf].ch[0], &c, two ? X_D1 : X_HUF, 0, nf);
              state(&fr[nf].ch[1], &c, X_HUF, 1, nf);
              ho_ch *h = &fr[nf].ch[two];
              h->nbits = q;
              h->cbflag = cbf;
              int lo = sym ? 1 << (sym - 1) : 0, m = sym ? (1 << sym) - 1 : 0;
              for (int k = 0; k < n; k++)
              {
                int v = w == 0 ? lo : w == 1 ? m : w == 2 ? -lo : lo + (k * 77) % (m - lo + 1) * 1;
                h->hv[k] = k % 3 == 2 ? 0 : k % 3 ? -v : v;
              }
              fr[nf].indep = w != 1;
              if (w == 1)
                h->pflag = sym < q - 1, h->rep = 0;
            }
          check("huffman", &c, fr, nf, layout, say("order %d, %d bits, cb %d, signal %d", order, q, cbf, two));
        }
}

/* ---- scene-based audio beside channels and objects: the sum of what each gives alone */
static snd mixture(int mask, int rev, int ref, int order, int target, int nf)
{
  snd o = {0};
  static om_state om;
  static bw_t b0;
  if (!b0.d)
    bw_init(&b0);
  memset(&om, 0, sizeof om);
  om.nobj = 2;
  om.uniform = 1;
  sb_t *s = sb_new();
  ho_cfg c;
  ho_default(&c, order, 4, -1);
  sy_cfg_default(&s->cfg, ref);
  int nc = 0, ob = 0, hb = 0;
  if (mask & 1)
  {
    sx_layout(s, ref, ref == 6 ? "PSLP" : "P");
    nc = ref == 6 ? 6 : 2;
  }
  s->cfg.rdc = 1;
  for (int k = 0; k < 2; k++)
    if ((k ^ rev) == 0 && (mask & 2))
    {
      ob_add(s, 2, 0, 1, 0);
      ob = nc;
      nc += 2;
    }
    else if ((k ^ rev) == 1 && (mask & 4))
    {
      ho_add(s, &c);
      hb = nc;
      nc += c.ntr;
    }
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < nf; f++)
  {
    if (mask & 1)
      for (int i = 0; i < (ref == 6 ? 6 : 2); i++)
      {
        tone(&s->ch[i], 3, i, f);
        if (i == 3)
          s->ch[i].max_sfb = 3;
      }
    if (mask & 2)
    {
      bw_reset(&b0);
      om_t v[OM_MAX];
      for (int i = 0; i < 2; i++)
      {
        om_t n = {{i ? 40 : -70, i ? 5 : 0, 3, 32, 0, 0, 0, 0}};
        v[i] = n;
        tone(&s->ch[ob + i], 3, 10 + i, f);
      }
      om_intra(&om, v, (const int[OM_N]){0}, &b0);
      ob_md(s, ob_ext, &b0);
    }
    if (mask & 4)
    {
      static ho_fr fr1;
      ho_fr0(&fr1);
      for (int i = 0; i < c.ntr; i++)
      {
        tone(&s->ch[hb + i], 3, 14 + i, f);
        state(&fr1.ch[i], &c, (int[]){X_AMB, X_V1, X_D1, X_V2}[(i + f / 3) % 4], i, f);
      }
      ho_md(s, ho_ext, &c, &fr1);
    }
    sb_frame(s, 1);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  dec_defaults(&D);
  D.in.ui_pcm_wd_sz = 32;
  D.in.ui_cicp_layout_idx = target;
  o.err = dec_all(&D, b, 0);
  o.nch = D.out.i_num_chan;
  o.n = o.nch ? D.npcm / 4 / o.nch : 0;
  o.y = calloc(o.n * o.nch + 1, sizeof(double));
  for (long t = 0; t < o.n * o.nch; t++)
  {
    int32_t v;
    memcpy(&v, D.pcm + 4 * t, 4);
    o.y[t] = v / 65536.0;
  }
  dec_close(&D);
  dec_free(&D);
  free(b.d);
  sb_del(s);
  return o;
}
static void together(int order, int ref, int target)
{
  if (!vf_case("order %d beside channels of layout %d and objects for layout %d", order, ref, target))
    return;
  snd one[3];
  int nf = 8;
  for (int k = 0; k < 3; k++)
  {
    one[k] = mixture(1 << k, 0, ref, order, target, nf);
    if (one[k].err || one[k].n < (nf - 1) * T)
      vf_fail("no-output", "%s alone for layout %d: error %x, %ld samples", k ? k > 1 ? "scene" : "objects" : "channels", target, one[k].err, one[k].n);
  }
  for (int mask = 5; mask <= 7; mask++)
    for (int rev = 0; rev < 2; rev++)
    {
      if (mask == 5 && rev)
        continue;
      snd o = mixture(mask, rev, ref, order, target, nf);
      const char *what = mask == 5 ? "channels and scene" : mask == 6 ? rev ? "scene and objects" : "objects and scene" : rev ? "channels, scene and objects" : "channels, objects and scene";
      if (o.err || o.n < (nf - 1) * T || o.nch != one[0].nch || o.nch != one[2].nch)
        vf_fail("no-output", "%s for layout %d: error %x, %ld samples of %d channels", what, target, o.err, o.n, o.nch);
      else
      {
        double pk = 0;
        long lim = o.n;
        for (int k = 0; k < 3; k++)
          if (mask >> k & 1 && one[k].n < lim)
            lim = one[k].n;
        for (long i = 0; i < lim * o.nch; i++)
          pk = fmax(pk, fabs(o.y[i]));
        for (long i = 0; i < lim * o.nch; i++)
        {
          double v = 0;
          for (int k = 0; k < 3; k++)
            if (mask >> k & 1)
              v += one[k].y[i];
          if (fabs(v) > 1 && i % T == 0)
            vf_nontriv++;
          if (!(fabs(v - o.y[i]) <= 2e-6 * pk + 1e-3))
          {
            vf_fail("sum", "%s of order %d, layout %d, for layout %d: sample %ld of loudspeaker %ld is %.4f, the parts add up to %.4f", what, order, ref, target, i / o.nch, i % o.nch, o.y[i], v);
            break;
          }
        }
      }
      free(o.y);
    }
  for (int k = 0; k < 3; k++)
    free(one[k].y);
}
/* the matrix depends on the loudspeakers alone: not on the sampling rate or the layout the scene was made for */
static void elsewhere(int order, int cicp)
{
  static const int fsi[] = {4, 5, 6, 7};
  static double R0[24][49];
  if (!vf_case("rendering matrix of order %d for layout %d at other rates", order, cicp) || measure(order, cicp, 3))
    return;
  memcpy(R0, R, sizeof R0);
  for (int i = 0; i < 4; i++)
  {
    if (measure(order, cicp, fsi[i]))
      continue;
    for (int k = 0; k < (order + 1) * (order + 1); k++)
      for (int s = 0; s < R_nch; s++)
        if (fabs(R[s][k] - R0[s][k]) > 1e-5)
        {
          vf_fail("rate", "order %d layout %d: coefficient %d reaches loudspeaker %d with %.5f at %d Hz, %.5f at 48000 Hz", order, cicp, k, s, R[s][k], (int[]){44100, 32000, 24000, 22050}[i], R0[s][k]);
          return;
        }
  }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  int big = 19;
  for (int order = 0; order <= 6; order++)
    for (int cicp = 1; cicp <= 20; cicp++)
      if (cicp != 8 && cicp != 13 && vf_case("rendering matrix of order %d for layout %d", order, cicp) && !measure(order, cicp, 3))
      {
        if (R_res > 2e-6)
          vf_fail("not-linear", "order %d layout %d: output is not the transport signal times a number: off by %.2g of its peak", order, cicp, R_res);
        structure(order, cicp);
      }
  for (int o = 0; o <= 6; o++)
  {
    vectors(o, big, 5);
    quantized(o, big);
    directions(o, big);
    ambience(o, big);
  }
  ho_huff = huff;
  gains();
  many_gains();
  for (int o = 1; o <= 3; o++)
  {
    if (o < 3 || vf_thorough)
      mixed(o, -1, 0, big);
    for (int b = 0; b < o; b++)
      for (int v = 0; v < 3; v++)
        if (vf_thorough || o == b + 1 + (v == 1 && o == 2 && b == 0))
          if (vf_thorough || o < 3)
            mixed(o, b, v, big);
  }
  for (int t = 0; t < 8; t++)
    for (int m = 0; m < 2; m++)
      changes(1 + t % 3, -1, 0, t, m, big);
  for (int v = 0; v < 3; v++)
  {
    changes(2, 0, v, 7, v & 1, big);
    changes(2, 1, v, 3, v & 1, big);
    changes(3, 1, v, 4, v & 1, big);
  }
  for (int o = 1; o <= 4; o++)
    for (int b = -1; b < o && b < 2; b++)
      prediction(o, b, big);
  for (int o = 1; o <= 6; o++)
    huffman(o, big);
  for (int cicp = 1; cicp <= 20; cicp++)
    if (cicp != 8 && cicp != 13)
      for (int o = 1; o <= 6; o++)
      {
        if (cicp != 20)
          for (int ref = 2; ref <= 6; ref += 4)
            if (vf_thorough || ((o + cicp) % 3 == 0 && (ref == 2) == (o + cicp) % 2))
              together(o, ref, cicp);
        if (vf_thorough || cicp == 3 * o)
          elsewhere(o, cicp);
      }
  return vf_finish();
}
