/* Decodes a synthesised stream with the decoder and compares it with the model's output (refdec.h). */
#ifndef VF_MODEL_H
#define VF_MODEL_H
#include "dec.h"
#include "refdec.h"

typedef struct
{
  sb_t *s;
  rd_t r;
  long skip;   /* samples the decoder may leave out at the end (limiter delay) */
  double rel;  /* tolerance relative to the size of the intermediates around the sample */
  double worst; /* largest error met, in units of the tolerance */
} mt_t;
/* configuration of single elements, e.g. "S", "P", "PSLP"; M: multichannel coding of all channels but LFEs */
static mt_t mt_new(const char *els, int cicp, int fsi)
{
  mt_t m;
  int n = 0;
  memset(&m, 0, sizeof(m));
  m.s = sb_new();
  sy_cfg_default(&m.s->cfg, cicp);
  m.s->cfg.fs_idx = fsi;
  static uint8_t mask[8];
  memset(mask, 0, sizeof(mask));
  for (const char *p = els; *p; p++)
    for (int k = 0; k < (*p == 'P' ? 2 : *p == 'M' ? 0 : 1); k++, n++)
      if (*p != 'L')
      {
        mask[n >> 3] |= 0x80 >> (n & 7);
        m.s->mct.map[m.s->mct.nch++] = n;
      }
  sy_add_group(&m.s->cfg, SIG_CH, n);
  for (const char *p = els; *p; p++)
  {
    sy_el *e = sy_add_el(&m.s->cfg, *p == 'S' ? EL_SCE : *p == 'L' ? EL_LFE : *p == 'M' ? EL_EXT : EL_CPE);
    if (*p == 'M')
    {
      e->ext_type = EXT_MCT;
      e->ext_cfg = mask;
      e->ext_cfg_len = (n + 7) / 8;
      m.s->mct.on = 1;
    }
  }
  m.rel = 3e-6;
  return m;
}
static void mt_begin(mt_t *m)
{
  mhas_sync(&m->s->o);
  sb_config(m->s);
  sb_channels(m->s);
  rd_start(&m->r, m->s);
}
static void mt_frame(mt_t *m, int indep)
{
  sb_frame(m->s, indep);
  rd_frame(&m->r, m->s, indep);
}
static void mt_free(mt_t *m)
{
  sb_del(m->s);
  free(m->r.pcm);
  free(m->r.mag);
}
/* Decodes and compares; 1 when equal.  Below full scale only: larger signals meet the saturation. */
static int mt_check(mt_t *m, const char *sig)
{
  blob b;
  dec_t d;
  int nch = m->r.nch, ok = 1;
  b.d = sb_take(m->s, &b.n);
  dec_defaults(&d);
  d.in.ui_pcm_wd_sz = 32;
  int e = dec_all(&d, b, 0);
  long lim = m->s->cfg.fs_idx == 3 ? 240 : 0, n = d.npcm / 4 / nch;
  const int32_t *p = (const int32_t *)d.pcm;
  if (e || d.out.i_num_chan != nch)
  {
    vf_fail(sig, "decoding answered %x, %d channels", e, d.out.i_num_chan);
    ok = 0;
  }
  else if (n != m->r.n - lim)
  {
    vf_fail(sig, "%ld samples instead of %ld", n, m->r.n - lim);
    ok = 0;
  }
  uint64_t h = 0;
  for (int k = 0; k < nch && ok; k++)
  {
    long nf = m->r.n / 1024;
    for (long f = 0; f < nf && ok; f++)
    {
      double sc = m->r.mag[f * nch + k];
      if (f)
        sc = fmax(sc, m->r.mag[(f - 1) * nch + k]);
      double tol = m->rel * sc + 3.0 / 65536;
      for (long t = f * 1024; t < (f + 1) * 1024 && t < n; t++)
      {
        double x = m->r.pcm[t * nch + k], v = p[t * nch + k] / 65536.0, err = fabs(v - x);
        if (fabs(x) > 32000)
          continue;
        if (err / tol > m->worst)
          m->worst = err / tol;
        if (err > tol)
        {
          vf_fail(sig, "frame %ld channel %d sample %ld: %.6f instead of %.6f (tolerance %.2g)", f, k, t - f * 1024, v, x, tol);
          ok = 0;
          break;
        }
      }
    }
  }
  h = vf_hash(d.pcm, d.npcm, 0);
  vf_outcome(h);
  vf_trans += m->r.n / 1024 * nch;
  dec_close(&d);
  dec_free(&d);
  free(b.d);
  return ok;
}
#endif
