/* P17: panning of objects.  Enumerated: every direction the metadata can express x every output layout, then spreads and
 * gains.  Sixteen objects at a time play one spectral line each, so that the gains of all of them into every output follow
 * from the samples of one frame; the frame in which a direction changes has to run linearly from the old gains to the new. */
#include "vf.h"
#include "streams.h"
#include "objects.h"
#include "layouts.h"
#define NO 16
static const int line[NO] = {20, 55, 90, 125, 160, 195, 230, 265, 300, 335, 370, 405, 440, 475, 510, 545};
static float sig[NO][1024]; /* one steady frame of each object */
static float pinv[NO][1024];
static void tone(fd_ch *x, int i)
{
  x->win = W_LONG;
  x->max_sfb = gold_nsfb_l[3];
  x->arith_reset = 1;
  memset(x->q, 0, sizeof x->q);
  x->q[line[i]] = 7;
  fd_gain(x, 150);
}
static void basis(void)
{
  for (int i = 0; i < NO; i++)
  {
    sb_t *s = sb_new();
    sx_layout(s, 1, "S");
    mhas_sync(&s->o);
    sb_config(s);
    sb_channels(s);
    tone(&s->ch[0], i);
    for (int f = 0; f < 5; f++)
      sb_frame(s, f == 0);
    blob b;
    b.d = sb_take(s, &b.n);
    dec_t d;
    dec_defaults(&d);
    d.in.ui_pcm_wd_sz = 32;
    dec_all(&d, b, 100);
    const int32_t *p = (const int32_t *)d.pcm;
    for (int t = 0; t < 1024; t++)
      sig[i][t] = d.npcm >= 3072 * 4 ? p[2048 + t] / 65536.0f : 0;
    dec_free(&d);
    free(b.d);
    sb_del(s);
  }
  /* normal equations by elimination */
  static double a[NO][2 * NO];
  for (int i = 0; i < NO; i++)
    for (int j = 0; j < NO; j++)
    {
      double v = 0;
      for (int t = 0; t < 1024; t++)
        v += (double)sig[i][t] * sig[j][t];
      a[i][j] = v;
      a[i][NO + j] = i == j;
    }
  for (int i = 0; i < NO; i++)
  {
    double p = a[i][i];
    for (int j = 0; j < 2 * NO; j++)
      a[i][j] /= p;
    for (int r = 0; r < NO; r++)
      if (r != i)
      {
        double m = a[r][i];
        for (int j = 0; j < 2 * NO; j++)
          a[r][j] -= m * a[i][j];
      }
  }
  for (int i = 0; i < NO; i++)
    for (int t = 0; t < 1024; t++)
    {
      double v = 0;
      for (int j = 0; j < NO; j++)
        v += a[i][NO + j] * sig[j][t];
      pinv[i][t] = v;
    }
}
/* plays the entries of the list, NO at a time, two frames each; g[entry][channel] */
static int play(const char *what, int src, int cicp, const om_t *o, int n, float (*g)[24])
{
  int nc = sx_cicp_nch(cicp);
  sb_t *s = sb_new();
  ob_layout(s, src, NO, 0, 0, 0);
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int i = 0; i < NO; i++)
    tone(&s->ch[i], i);
  om_state st = {0};
  st.nobj = NO;
  int mode[OM_N] = {0}, nb = (n + NO - 1) / NO;
  bw_t b;
  bw_init(&b);
  for (int f = 0; f < 2 + 2 * nb; f++)
  {
    om_t x[NO];
    int k = f < 2 ? 0 : (f - 2) / 2;
    for (int i = 0; i < NO; i++)
      x[i] = o[k * NO + i < n ? k * NO + i : n - 1];
    bw_reset(&b);
    om_intra(&st, x, mode, &b);
    ob_md(s, ob_ext, &b);
    sb_frame(s, f == 0);
  }
  bw_free(&b);
  blob bl;
  bl.d = sb_take(s, &bl.n);
  sb_del(s);
  dec_t d;
  dec_defaults(&d);
  d.in.ui_pcm_wd_sz = 32;
  d.in.ui_cicp_layout_idx = src == cicp ? 0 : cicp;
  dec_all(&d, bl, 20 + 4 * nb);
  free(bl.d);
  long ns = d.out.i_num_chan > 0 ? d.npcm / 4 / d.out.i_num_chan : 0;
  int ok = 0;
  if (d.err_create || d.err_init || d.err_exec || d.out.i_num_chan != nc || ns < (2 + 2 * nb) * 1024 - 240)
    vf_fail("objects-not-played", "%s: create %x init %x execute %x, %d channels, %ld samples", what, d.err_create, d.err_init,
            d.err_exec, d.out.i_num_chan, ns);
  else
  {
    ok = 1;
    const int32_t *p = (const int32_t *)d.pcm;
    static float prev[NO][24];
    for (int k = 0; k < nb && ok; k++)
    {
      const int32_t *q = p + (long)(2 + 2 * k) * 1024 * nc;
      int end = k == nb - 1 ? 1024 - 240 : 1024;
      float cur[NO][24];
      if (k == nb - 1)
        break; /* the last one is a repetition */
      for (int c = 0; c < nc; c++)
      {
        double res = 0, most = 1; /* the largest gain used */
        for (int i = 0; i < NO; i++)
        {
          double v = 0;
          for (int t = 0; t < 1024; t++)
            v += pinv[i][t] * (q[(1024 + t) * nc + c] / 65536.0);
          cur[i][c] = v;
          if (k * NO + i < n)
            g[k * NO + i][c] = v;
          if (fabs(v) > most)
            most = fabs(v);
          if (k && fabs(prev[i][c]) > most)
            most = fabs(prev[i][c]);
        }
        for (int t = 0; t < end; t++)
        {
          double v = 0, w = 0;
          for (int i = 0; i < NO; i++)
          {
            v += cur[i][c] * sig[i][t];
            if (k)
              w += (prev[i][c] + (cur[i][c] - prev[i][c]) * (t + 1) / 1024) * sig[i][t];
          }
          double e = fabs(v - q[(1024 + t) * nc + c] / 65536.0), e2 = k ? fabs(w - q[t * nc + c] / 65536.0) : 0;
          if (e > res)
            res = e;
          if (e2 > res)
            res = e2;
        }
        if (!(res < 0.02 * most))
        {
          vf_fail("not-linear", "%s: entries from %d, output %d: %g away from the mixture its gains describe", what, k * NO, c, res);
          ok = 0;
        }
      }
      memcpy(prev, cur, sizeof prev);
    }
  }
  dec_free(&d);
  return ok;
}
static double angdiff(double a, double b)
{
  double d = fmod(fabs(a - b), 360);
  return d > 180 ? 360 - d : d;
}
typedef struct
{
  int n, ch[16];
  double v[16][3], az[16], el[16];
} real_t; /* the speakers that are not for low frequencies */
static void reals(int cicp, real_t *r)
{
  int nc = sx_cicp_nch(cicp);
  r->n = 0;
  for (int c = 0; c < nc; c++)
    if (!lay[cicp][c].lfe)
    {
      double A = lay[cicp][c].az * M_PI / 180, E = lay[cicp][c].el * M_PI / 180;
      r->ch[r->n] = c;
      r->az[r->n] = lay[cicp][c].az;
      r->el[r->n] = lay[cicp][c].el;
      r->v[r->n][0] = cos(A) * cos(E);
      r->v[r->n][1] = sin(A) * cos(E);
      r->v[r->n++][2] = sin(E);
    }
}
static double det(const double *x, const double *y, const double *z)
{
  return x[0] * (y[1] * z[2] - y[2] * z[1]) - x[1] * (y[0] * z[2] - y[2] * z[0]) + x[2] * (y[0] * z[1] - y[1] * z[0]);
}
/* gap between the neighbouring speakers of a ring (elevation lo..hi) around an azimuth */
static double gap(const real_t *r, double lo, double hi, double az)
{
  double l = -999, h = 999;
  for (int i = 0; i < r->n; i++)
    if (r->el[i] > lo && r->el[i] < hi)
      for (int w = -1; w <= 1; w++)
      {
        double z = r->az[i] + 360 * w;
        if (z <= az + 1e-6 && z > l)
          l = z;
        if (z >= az - 1e-6 && z < h)
          h = z;
      }
  return h - l;
}
/* is the direction amid speakers that stand close enough that the gains have to point exactly there?  With elevated
 * speakers: inside a face of the convex hull whose corners lie within 91 degrees of azimuth, not across the back, where
 * both rings have close neighbours.  On the horizon: between two such neighbours */
static int amid(const real_t *r, double az, double el, const double *p, int *faces)
{
  if (el == 0 && fabs(az) <= 135 && gap(r, -1, 1, az) < 91)
    return 1;
  if (gap(r, 1, 89, az) > 91)
    return 0;
  for (int a = 0; a < r->n; a++)
    for (int b = 0; b < r->n; b++)
      for (int c = 0; c < r->n; c++)
      {
        if (a == b || b == c || a == c || (r->el[a] == r->el[b] && r->el[b] == r->el[c]))
          continue;
        const int id[3] = {a, b, c};
        int bad = 0, hi = 0, lo = 0;
        for (int q = 0; q < 3; q++)
        {
          for (int w = 0; w < q; w++)
            if (r->el[id[q]] < 89 && r->el[id[w]] < 89 && angdiff(r->az[id[q]], r->az[id[w]]) > 91)
              bad = 1;
          if (r->el[id[q]] < 89)
            hi |= r->az[id[q]] > 90.5, lo |= r->az[id[q]] < -90.5;
        }
        if (bad || (hi && lo))
          continue;
        double u[3], v[3], m[3];
        for (int k = 0; k < 3; k++)
          u[k] = r->v[b][k] - r->v[a][k], v[k] = r->v[c][k] - r->v[a][k];
        m[0] = u[1] * v[2] - u[2] * v[1];
        m[1] = u[2] * v[0] - u[0] * v[2];
        m[2] = u[0] * v[1] - u[1] * v[0];
        double d = m[0] * r->v[a][0] + m[1] * r->v[a][1] + m[2] * r->v[a][2];
        if (d < 0.02)
          continue;
        for (int x = 0; x < r->n; x++)
          if (m[0] * r->v[x][0] + m[1] * r->v[x][1] + m[2] * r->v[x][2] > d + 1e-6)
            bad = 1;
        double D = det(r->v[a], r->v[b], r->v[c]);
        if (bad || fabs(D) < 1e-6)
          continue;
        if (det(p, r->v[b], r->v[c]) / D > -1e-9 && det(r->v[a], p, r->v[c]) / D > -1e-9 && det(r->v[a], r->v[b], p) / D > -1e-9)
          return 1;
      }
  (void)faces;
  return 0;
}
static void common(const char *what, int cicp, const om_t *o, const float *g, double gain)
{
  int nc = sx_cicp_nch(cicp);
  double p = 0;
  for (int c = 0; c < nc; c++)
  {
    if (!isfinite(g[c]))
      vf_fail("not-finite", "%s %g,%g: gain of output %d is %g", what, om_az(o), om_el(o), c, g[c]);
    if (g[c] < -2e-5 * (1 + gain))
      vf_fail("negative", "%s %g,%g: gain of output %d is %g", what, om_az(o), om_el(o), c, g[c]);
    if (lay[cicp][c].lfe && fabs(g[c]) > 2e-5 * (1 + gain))
      vf_fail("lfe", "%s %g,%g: the LFE %d gets %g", what, om_az(o), om_el(o), c, g[c]);
    p += (double)g[c] * g[c];
  }
  if (fabs(sqrt(p) - gain) > 2e-4 * gain + 1e-5)
    vf_fail("power", "%s %g,%g: the gains have power %g, transmitted was %g", what, om_az(o), om_el(o), p, gain * gain);
}
enum { AZ = 241, EL = 61, MAX = 18000, PAD = 2 * NO };
static om_t dir[MAX + PAD];
static float gd[MAX + PAD][24], gt[MAX + PAD][24];
static const double lip = 0.075; /* largest change of a gain per degree (plus 0.3) of direction */
static void directions(int cicp)
{
  int n = 0, nc = sx_cicp_nch(cicp);
  char what[64];
  snprintf(what, sizeof what, "layout %d", cicp);
  memset(dir, 0, sizeof dir);
  for (int e = -30; e <= 30; e++)
    for (int a = -120; a <= 120; a++)
    {
      dir[n].v[OM_AZ] = a;
      dir[n].v[OM_EL] = e;
      dir[n++].v[OM_GAIN] = 32;
    }
  for (int i = 0; i < PAD; i++)
    dir[n + i] = dir[0];
  if (!play(what, cicp, cicp, dir, n + PAD, gd))
    return;
  real_t r;
  reals(cicp, &r);
  for (int i = 0; i < n; i++)
  {
    const om_t *o = &dir[i];
    const float *g = gd[i];
    double az = om_az(o), el = om_el(o), A = az * M_PI / 180, E = el * M_PI / 180;
    double p[3] = {cos(A) * cos(E), sin(A) * cos(E), sin(E)}, v[3] = {0};
    common(what, cicp, o, g, 1);
    vf_trans++;
    for (int k = 0; k < r.n; k++)
      for (int j = 0; j < 3; j++)
        v[j] += g[r.ch[k]] * r.v[k][j];
    if (amid(&r, az, el, p, 0))
    {
      double l = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
      double cr[3] = {v[1] * p[2] - v[2] * p[1], v[2] * p[0] - v[0] * p[2], v[0] * p[1] - v[1] * p[0]};
      double off = sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]) / l;
      vf_count("directions amid real speakers", 1);
      if (!(off < 1e-3) || v[0] * p[0] + v[1] * p[1] + v[2] * p[2] < 0)
        vf_fail("direction", "%s %g,%g: the gains point %g degrees away", what, az, el, asin(off > 1 ? 1 : off) * 180 / M_PI);
      int act = 0;
      for (int k = 0; k < r.n; k++)
        act += g[r.ch[k]] > 1e-3;
      if (act > 3)
        vf_fail("not-local", "%s %g,%g: %d speakers play", what, az, el, act);
    }
    for (int k = 0; k < r.n; k++)
    {
      double d = acos(fmin(1, p[0] * r.v[k][0] + p[1] * r.v[k][1] + p[2] * r.v[k][2])) * 180 / M_PI;
      if (d < 0.01 && fabs(g[r.ch[k]] - 1) > 1e-4)
        vf_fail("own-direction", "%s %g,%g: the speaker there gets %g", what, az, el, g[r.ch[k]]);
      if (d < 1.6 && g[r.ch[k]] < 1 - 0.06 * d)
        vf_fail("own-direction", "%s %g,%g: the speaker %g degrees away gets %g", what, az, el, d, g[r.ch[k]]);
    }
    int mi = i - i % AZ + AZ - 1 - i % AZ;
    for (int c = 0; c < nc; c++)
    {
      int m = find(cicp, -lay[cicp][c].az, lay[cicp][c].el, lay[cicp][c].lfe);
      if (m >= 0 && fabs(g[c] - gd[mi][m]) > 1e-4)
      {
        vf_fail("not-symmetric", "%s %g,%g: output %d gets %g, its mirror image %g", what, az, el, c, g[c], gd[mi][m]);
        break;
      }
    }
    for (int k = 0; k < 2; k++)
    {
      int j = k ? i + AZ : i % AZ == AZ - 1 ? i - AZ + 1 : i + 1;
      if (j >= n)
        continue;
      double a2 = om_az(&dir[j]) * M_PI / 180, e2 = om_el(&dir[j]) * M_PI / 180;
      double an = acos(fmin(1, cos(E) * cos(e2) * cos(A - a2) + sin(E) * sin(e2))) * 180 / M_PI;
      for (int c = 0; c < nc; c++)
        if (fabs(g[c] - gd[j][c]) > lip * (an + 0.3))
          vf_fail("discontinuous", "%s %g,%g -> %g,%g: output %d changes from %g to %g", what, az, el, om_az(&dir[j]), om_el(&dir[j]),
                  c, g[c], gd[j][c]);
    }
  }
  vf_nontriv++;
}
/* a stream of another layout, played on this one, pans the same way; values beyond the range are limited */
static void target(int src, int cicp)
{
  char what[64];
  int n = 0, nc = sx_cicp_nch(cicp);
  snprintf(what, sizeof what, "layout %d on %d", src, cicp);
  memset(dir, 0, sizeof dir);
  for (int e = -32; e <= 31; e += 3)
    for (int a = -128; a <= 127; a += 5)
    {
      dir[n].v[OM_AZ] = a;
      dir[n].v[OM_EL] = e;
      dir[n].v[OM_RAD] = n & 15;
      dir[n++].v[OM_GAIN] = 32;
    }
  int m = n;
  for (int k = -64; k < 64; k++)
  {
    dir[n].v[OM_AZ] = 3 * k;
    if (dir[n].v[OM_AZ] < -128 || dir[n].v[OM_AZ] > 127)
      dir[n].v[OM_AZ] /= 2;
    dir[n].v[OM_EL] = k / 3;
    dir[n++].v[OM_GAIN] = k;
  }
  for (int i = 0; i < PAD; i++)
    dir[n + i] = dir[0];
  if (!play(what, src, cicp, dir, n + PAD, gt))
    return;
  for (int i = 0; i < n; i++)
    common(what, cicp, &dir[i], gt[i], om_gain(&dir[i]));
  /* the same from a stream of the layout itself, in range and at unit gain */
  static om_t ref[MAX + PAD];
  memcpy(ref, dir, sizeof ref);
  for (int i = 0; i < n; i++)
  {
    ref[i].v[OM_AZ] = om_clip(ref[i].v[OM_AZ], -120, 120);
    ref[i].v[OM_EL] = om_clip(ref[i].v[OM_EL], -30, 30);
    ref[i].v[OM_RAD] = 5;
    ref[i].v[OM_GAIN] = 32;
  }
  if (!play(what, cicp, cicp, ref, n + PAD, gd))
    return;
  for (int i = 0; i < n; i++)
    for (int c = 0; c < nc; c++)
      if (fabs(gt[i][c] - gd[i][c] * om_gain(&dir[i])) > 1e-4 * om_gain(&dir[i]) + 1e-5)
      {
        vf_fail(i < m ? "target" : "gain", "%s: azimuth %d elevation %d gain %d: output %d gets %g, expected %g", what, dir[i].v[OM_AZ],
                dir[i].v[OM_EL], dir[i].v[OM_GAIN], c, gt[i][c], gd[i][c] * om_gain(&dir[i]));
        break;
      }
  vf_nontriv++;
}
static void spreads(int cicp, int h)
{
  char what[64];
  int n = 0, nc = sx_cicp_nch(cicp), nd = 0;
  snprintf(what, sizeof what, "layout %d, spread height %d", cicp, h);
  memset(dir, 0, sizeof dir);
  static const int wide[] = {0, 1, 2, 4, 8, 15, 22, 29, 30, 31, 36, 44, 52, 59, 60, 61, 64, 72, 80, 88, 96, 104, 112, 119, 120, 121, 127};
  enum { NW = sizeof wide / sizeof *wide };
  for (int e = -30; e <= 30; e += vf_thorough ? 3 : 6)
    for (int a = -120; a <= 120; a += vf_thorough ? 8 : 20)
    {
      for (int w = 0; w < NW; w++)
      {
        dir[n].v[OM_AZ] = a;
        dir[n].v[OM_EL] = e;
        dir[n].v[OM_GAIN] = 32;
        dir[n].v[OM_SW] = wide[w];
        dir[n].v[OM_SH] = h;
        dir[n++].v[OM_SD] = w & 15;
        if (n > MAX)
          return;
      }
      nd++;
    }
  int na = 240 / (vf_thorough ? 8 : 20) + 1;
  for (int i = 0; i < PAD; i++)
    dir[n + i] = dir[0];
  if (!play(what, cicp, cicp, dir, n + PAD, gd))
    return;
  for (int i = 0; i < n; i++)
  {
    const om_t *o = &dir[i];
    const float *g = gd[i];
    common(what, cicp, o, g, 1);
    vf_trans++;
    int d = i / NW, mi = (d - d % na + na - 1 - d % na) * NW + i % NW;
    for (int c = 0; c < nc; c++)
    {
      int m = find(cicp, -lay[cicp][c].az, lay[cicp][c].el, lay[cicp][c].lfe);
      if (m >= 0 && fabs(g[c] - gd[mi][m]) > 1e-4)
      {
        vf_fail("spread-not-symmetric", "%s %g,%g width %d: output %d gets %g, its mirror image %g", what, om_az(o), om_el(o),
                o->v[OM_SW], c, g[c], gd[mi][m]);
        break;
      }
    }
    if (getenv("SPV"))
    {
      printf("%g,%g w %d:", om_az(o), om_el(o), o->v[OM_SW]);
      for (int c = 0; c < nc; c++)
        printf(" %.3f", g[c]);
      puts("");
    }
  }
  vf_nontriv++;
}
/* objects beside channels: what comes out is the channels' output plus what the objects alone give */
enum { BES = 14 };
static void beside_play(dec_t *d, int src, int dst, int nch, int nobj, int chs, int obs)
{
  sb_t *s = sb_new();
  int ex;
  if (nch)
  {
    char els[32] = {0};
    static bw_t cfg;
    memset(els, 'S', nch);
    sx_layout(s, src, els);
    s->cfg.rdc = 1;
    if (!cfg.d)
      bw_init(&cfg);
    bw_reset(&cfg);
    om_cfg(&cfg, 0, 0, 0);
    bw_align(&cfg);
    sy_add_group(&s->cfg, SIG_OBJ, nobj);
    for (int i = 0; i < nobj; i++)
      sy_add_el(&s->cfg, EL_SCE);
    ex = s->cfg.nel;
    sy_el *e = sy_add_el(&s->cfg, EL_EXT);
    e->ext_type = EXT_OAM;
    e->ext_cfg = cfg.d;
    e->ext_cfg_len = bw_len(&cfg);
  }
  else
  {
    ob_layout(s, src, nobj, 0, 0, 0);
    ex = ob_ext;
  }
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  om_state st = {0};
  st.nobj = nobj;
  int mode[OM_N] = {0};
  bw_t b;
  bw_init(&b);
  for (int f = 0; f < BES; f++)
  {
    om_t v[NO];
    memset(v, 0, sizeof v);
    for (int i = 0; i < nch + nobj; i++)
    {
      fd_ch *x = &s->ch[i];
      tone(x, i < nch ? (i + 4) % NO : i - nch);
      if (i < nch)
        x->q[line[(i + 4) % NO]] = 0, x->q[line[(i + 4) % NO] + 11] = chs ? 5 : 0;
      else if (!obs)
        memset(x->q, 0, sizeof x->q);
    }
    for (int i = 0; i < nobj; i++)
    {
      v[i].v[OM_AZ] = (f / 2 * 37 + i * 61) % 241 - 120;
      v[i].v[OM_EL] = (f / 2 * 11 + i * 17) % 61 - 30;
      v[i].v[OM_RAD] = 3;
      v[i].v[OM_GAIN] = 32;
    }
    bw_reset(&b);
    om_intra(&st, v, mode, &b);
    ob_md(s, ex, &b);
    sb_frame(s, f == 0);
  }
  bw_free(&b);
  blob bl;
  bl.d = sb_take(s, &bl.n);
  sb_del(s);
  dec_defaults(d);
  d->in.ui_pcm_wd_sz = 32;
  d->in.ui_cicp_layout_idx = dst;
  dec_all(d, bl, BES + 20);
  free(bl.d);
}
static void beside(int src, int dst)
{
  char what[64];
  int nch = sx_cicp_nch(src), nc = sx_cicp_nch(dst ? dst : src), nobj = 16 - nch < 4 ? 16 - nch : 4;
  dec_t d[4]; /* channels, objects, both; the objects alone in a stream */
  snprintf(what, sizeof what, "objects beside layout %d on %d", src, dst);
  for (int k = 0; k < 4; k++)
    beside_play(&d[k], src, k == 3 && dst == src ? 0 : dst, k == 3 ? 0 : nch, nobj, k != 1, k != 0);
  long n = d[2].npcm / 4 / nc, m = d[3].npcm / 4 / nc;
  int bad = 0;
  for (int k = 0; k < 4; k++)
    if (d[k].err_create || d[k].err_init || d[k].err_exec || d[k].out.i_num_chan != nc || d[k].npcm < (BES - 1) * 1024 * 4l * nc)
    {
      vf_fail("beside-not-played", "%s (%d): create %x init %x execute %x, %d channels", what, k, d[k].err_create, d[k].err_init, d[k].err_exec, d[k].out.i_num_chan);
      bad = 1;
    }
  double add = 0, alone = 0;
  int at = 0;
  if (!bad)
    for (long t = 0; t < n; t++)
      for (int c = 0; c < nc; c++)
      {
        double x[4];
        for (int k = 0; k < 4; k++)
          x[k] = k < 3 || t < m ? ((int32_t *)d[k].pcm)[t * nc + c] / 65536.0 : 0;
        if (fabs(x[2] - x[0] - x[1]) > add)
          add = fabs(x[2] - x[0] - x[1]);
        if (t < m && t < n - 1 && fabs(x[1] - x[3]) > alone)
          alone = fabs(x[1] - x[3]), at = c;
      }
  if (!(add <= 0.02))
    vf_fail("beside-not-added", "%s: %g away from the sum of channels and objects", what, add);
  if (!(alone <= 0.02))
    vf_fail("beside-differs", "%s: output %d is %g away from the objects played without channels", what, at, alone);
  for (int k = 0; k < 4; k++)
    dec_free(&d[k]);
  if (!bad)
    vf_nontriv++;
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  static const int L[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20};
  enum { NL = sizeof L / sizeof *L };
  basis();
  for (int i = 0; i < NL; i++)
    if (vf_case("directions on layout %d", L[i]))
      directions(L[i]);
  for (int i = 0; i < NL; i++)
    for (int h = 0; h <= 31; h += vf_thorough ? 5 : 30)
      if (vf_case("spreads on layout %d, height %d", L[i], h))
        spreads(L[i], h);
  for (int s = 0; s < NL; s++)
    for (int i = 0; i < NL; i++)
      if ((L[i] != 20 || L[s] == 20) && (vf_thorough || L[s] == 6 || L[s] == 1 || L[s] == 18) && vf_case("stream layout %d played on %d", L[s], L[i]))
        target(L[s], L[i]);
  for (int s = 0; s < NL; s++)
    for (int i = -1; i < NL; i++)
      if (sx_cicp_nch(L[s]) < 16 && (i < 0 || L[i] != 20) && vf_case("objects beside layout %d on %d", L[s], i < 0 ? 0 : L[i]))
        beside(L[s], i < 0 ? 0 : L[i]);
  return vf_finish();
}
