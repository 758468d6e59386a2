/* Object metadata, written from the standard's syntax (low-delay form, the one the profile uses), and streams of objects. */
#ifndef VF_OBJECTS_H
#define VF_OBJECTS_H
#include "synth.h"
#include <math.h>
enum { OM_AZ, OM_EL, OM_RAD, OM_GAIN, OM_SW, OM_SH, OM_SD, OM_PRI, OM_N };
static const int om_bits[OM_N] = {8, 6, 4, 7, 7, 5, 4, 3};
static const int om_sgn[OM_N] = {1, 1, 0, 1, 0, 0, 0, 0};
#define OM_MAX 24
typedef struct
{
  int v[OM_N]; /* transmitted numbers */
} om_t;
typedef struct
{
  int uniform, pri; /* uniform_spread_present, dyn_obj_priority_present */
  int nobj;
  int fixed[OM_N]; /* what the last intra-coded frame said; spread: OM_SW */
  om_t cur[OM_MAX]; /* what a decoder now holds */
} om_state;
static void om_cfg(bw_t *b, int sublen /* 0: one per frame */, int uniform, int pri)
{
  bw_put(b, 1, 1); /* low delay */
  bw_put(b, !sublen, 1);
  if (sublen)
    bw_put(b, sublen / 64 - 1, 6);
  bw_put(b, 0, 1);
  bw_put(b, pri, 1);
  bw_put(b, uniform, 1);
}
static void om_val(bw_t *b, int v, int n) { bw_put(b, (uint32_t)v & ((1u << n) - 1), n); }
/* how a parameter is sent in an intra-coded frame: 0 one value per object, 1 common, 2 fixed */
static void om_intra(om_state *s, const om_t *o, const int mode[OM_N], bw_t *b)
{
  static const int seq[] = {OM_AZ, OM_EL, OM_RAD, OM_GAIN, OM_SW, OM_PRI};
  bw_put(b, 1, 1);
  for (int k = 0; k < 6; k++)
  {
    int p = seq[k], m = s->nobj > 1 ? mode[p] : 0, np = p == OM_SW && !s->uniform ? 3 : 1;
    if (p == OM_PRI && !s->pri)
      continue;
    if (s->nobj > 1)
    {
      bw_put(b, m == 2, 1);
      if (m != 2)
        bw_put(b, m == 1, 1);
    }
    s->fixed[p] = m == 2;
    for (int i = 0; i < (m ? 1 : s->nobj); i++)
      for (int j = 0; j < np; j++)
        om_val(b, o[i].v[p + j], om_bits[p + j]);
    for (int i = 0; i < s->nobj; i++)
      for (int j = 0; j < np; j++)
        s->cur[i].v[p + j] = o[m ? 0 : i].v[p + j];
  }
}
/* absolute values for the objects of the set */
static void om_abs(om_state *s, const om_t *o, unsigned set, bw_t *b)
{
  static const int seq[] = {OM_AZ, OM_EL, OM_RAD, OM_GAIN, OM_SW, OM_PRI};
  bw_put(b, 0, 1);
  bw_put(b, 1, 1);
  for (int i = 0; i < s->nobj; i++)
  {
    bw_put(b, set >> i & 1, 1);
    if (set >> i & 1)
      for (int k = 0; k < 6; k++)
      {
        int p = seq[k], np = p == OM_SW && !s->uniform ? 3 : 1;
        if ((p == OM_PRI && !s->pri) || s->fixed[p])
          continue;
        for (int j = 0; j < np; j++)
        {
          om_val(b, o[i].v[p + j], om_bits[p + j]);
          s->cur[i].v[p + j] = o[i].v[p + j];
        }
      }
  }
}
/* differences; nb: width index 0..7, the differences have to fit; force: send zero differences, too */
static void om_diff(om_state *s, const om_t *o, unsigned set, int nb, int force, bw_t *b)
{
  static const int seq[] = {OM_AZ, OM_EL, OM_RAD, OM_GAIN, OM_SW, OM_PRI};
  bw_put(b, 0, 1);
  bw_put(b, 0, 1);
  for (int i = 0; i < s->nobj; i++)
  {
    bw_put(b, set >> i & 1, 1);
    if (!(set >> i & 1))
      continue;
    bw_put(b, nb, 3);
    for (int k = 0; k < 6; k++)
    {
      int p = seq[k], np = p == OM_SW && !s->uniform ? 3 : 1;
      if ((p == OM_PRI && !s->pri) || s->fixed[p])
        continue;
      for (int j = 0; j < np; j++)
      {
        int d = o[i].v[p + j] - s->cur[i].v[p + j], n = nb + 2;
        if (p != OM_AZ && n > om_bits[p + j] + 1)
          n = om_bits[p + j] + 1;
        bw_put(b, d || force, 1);
        if (d || force)
          om_val(b, d, n);
        s->cur[i].v[p + j] += d;
      }
    }
  }
}
static int om_diff_fits(const om_state *s, const om_t *o, unsigned set, int nb)
{
  for (int i = 0; i < s->nobj; i++)
    if (set >> i & 1)
      for (int p = 0; p < OM_N; p++)
      {
        int d = o[i].v[p] - s->cur[i].v[p], n = nb + 2;
        if (s->fixed[p >= OM_SW && p <= OM_SD ? OM_SW : p])
          continue;
        if (p != OM_AZ && n > om_bits[p] + 1)
          n = om_bits[p] + 1;
        if (d < -(1 << (n - 1)) || d >= 1 << (n - 1))
          return 0;
      }
  return 1;
}
/* what the numbers mean */
static double om_clip(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static double om_az(const om_t *o) { return om_clip(o->v[OM_AZ] * 1.5, -180, 180); }
static double om_el(const om_t *o) { return om_clip(o->v[OM_EL] * 3.0, -90, 90); }
static double om_gain(const om_t *o) { return om_clip(pow(10, (o->v[OM_GAIN] - 32) / 40.0), 0.004, 5.957); }

/* a stream whose only signals are nobj objects */
static int ob_ext; /* element number of the metadata */
static void ob_add(sb_t *s, int nobj, int sublen, int uniform, int pri)
{
  static bw_t cfg;
  if (!cfg.d)
    bw_init(&cfg);
  bw_reset(&cfg);
  om_cfg(&cfg, sublen, uniform, pri);
  bw_align(&cfg);
  sy_add_group(&s->cfg, SIG_OBJ, nobj);
  for (int i = 0; i < nobj; i++)
    sy_add_el(&s->cfg, EL_SCE);
  ob_ext = s->cfg.nel;
  sy_el *e = sy_add_el(&s->cfg, EL_EXT);
  e->ext_type = EXT_OAM;
  e->ext_cfg = cfg.d;
  e->ext_cfg_len = bw_len(&cfg);
}
static void ob_layout(sb_t *s, int cicp, int nobj, int sublen, int uniform, int pri)
{
  sy_cfg_default(&s->cfg, cicp);
  ob_add(s, nobj, sublen, uniform, pri);
}
static void ob_md(sb_t *s, int el, bw_t *b)
{
  bw_align(b);
  s->ext[el].present = 1;
  s->ext[el].use_default = 0;
  s->ext[el].n = bw_len(b);
  memcpy(s->ext[el].d, b->d, bw_len(b));
}
#endif
