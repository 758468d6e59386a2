/* P06: word sizes.  The same stream at 16, 24 and 32 bits and at every gain step from silence to far beyond full scale;
 * the oracle is the 32-bit output at a low gain, scaled by the gain's factor, clamped, and cut to the word. */
#include "vf.h"
#include "streams.h"

static blob mk(int kind, int gain, int nf)
{
  sb_t *s = sb_new();
  switch (kind)
  {
  case 0: sx_layout(s, 1, "S"); break;
  case 1: sx_layout(s, 2, "P"); break;
  case 2: sx_layout(s, 6, "PSLP"); break;
  case 3: sx_layout(s, 2, "P"); break;
  }
  if (kind != 3)
    s->cfg.fs_idx = 4; /* 44.1 kHz: no limiter in the path */
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < nf; f++)
  {
    for (int c = 0; c < s->nch; c++)
    {
      fd_ch *x = &s->ch[c];
      int lfe = kind == 2 && c == 3;
      fd_gain(x, gain);
      x->max_sfb = lfe ? 5 : 30;
      sx_fill(x, s->cfg.fs_idx, f * 17 + c, lfe ? 100 : 20);
      if (f == 0 && c == 0)
        memset(x->q, 0, sizeof(x->q)); /* silence first */
    }
    sb_frame(s, f == 0);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}
static int32_t samp(const dec_t *d, long i, int wd)
{
  const uint8_t *p = d->pcm + i * (wd / 8);
  if (wd == 16)
    return (int16_t)(p[0] | p[1] << 8);
  if (wd == 24)
    return (int32_t)((uint32_t)p[0] << 8 | (uint32_t)p[1] << 16 | (uint32_t)p[2] << 24) >> 8;
  return (int32_t)((uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24);
}
static void run(dec_t *d, blob st, const dconf *c, int wd)
{
  dec_defaults(d);
  dconf_apply(d, c);
  d->in.ui_pcm_wd_sz = wd;
  int e = dec_all(d, st, 0);
  if (e)
    vf_fail("code", "%d bits: code %x", wd, e);
  int fb = d->out.i_num_chan * wd / 8;
  if (d->out.i_pcm_wd_sz != wd)
    vf_fail("wdsz", "%d bits asked for, %d reported", wd, d->out.i_pcm_wd_sz);
  for (int f = 0; f < d->nframes; f++)
    if (fb <= 0 || d->frame_bytes[f] % fb)
      vf_fail("whole-frames", "%d bits: call %d returned %d bytes, not a multiple of %d", wd, f, d->frame_bytes[f], fb);
  dec_close(d);
}
static const int wds[3] = {16, 24, 32};
static void consistent(dec_t *d, const char *w)
{
  long n = d[0].npcm / 2;
  if (d[1].npcm != n * 3 || d[2].npcm != n * 4 || d[0].nframes != d[1].nframes || d[0].nframes != d[2].nframes)
  {
    vf_fail("length", "%s: %ld, %ld, %ld bytes at 16, 24, 32 bits", w, d[0].npcm, d[1].npcm, d[2].npcm);
    return;
  }
  for (int f = 0; f < d[0].nframes; f++)
    if (d[1].frame_bytes[f] * 2 != d[0].frame_bytes[f] * 3 || d[2].frame_bytes[f] != d[0].frame_bytes[f] * 2)
      vf_fail("length", "%s: call %d has different lengths", w, f);
  for (long i = 0; i < n; i++)
  {
    double a = samp(&d[0], i, 16), b = samp(&d[1], i, 24), c = samp(&d[2], i, 32);
    /* the narrower word is the wider one cut or rounded; a saturated one is the end of its range */
    if ((fabs(c / 65536 - a) >= 1.0001 && !(a == 32767 && c > 0 && c / 65536 >= 32767) && !(a == -32768 && c / 65536 <= -32768)) ||
        (fabs(c / 256 - b) >= 1.0001 && !(b == 8388607 && c / 256 >= 8388607) && !(b == -8388608 && c / 256 <= -8388608)))
    {
      vf_fail("words", "%s: sample %ld is %.0f, %.0f, %.0f at 16, 24, 32 bits", w, i, a, b, c);
      return;
    }
  }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  static dec_t ref, d[3];
  static const char *kn[] = {"mono 44.1k", "stereo 44.1k", "5.1 44.1k", "stereo 48k"};
  int nf = 4, g0 = 134;
  for (int kind = 0; kind < 3; kind++)
    for (int gain = vf_thorough || kind == 0 ? 20 : 22; gain <= 255; gain += vf_thorough || kind == 0 ? 1 : 5)
      if (vf_case("%s, gain %d", kn[kind], gain))
      {
        blob b0 = mk(kind, g0, nf), b = mk(kind, gain, nf);
        run(&ref, b0, &dconfs[0], 32);
        double sc = pow(2.0, (gain - g0) / 4.0);
        long nsat = 0, n = ref.npcm / 4;
        double pk = 0;
        for (long i = 0; i < n; i++)
          pk = fmax(pk, fabs((double)samp(&ref, i, 32)));
        if (pk > 0.3 * 2147483648.0 || pk < 0.0005 * 2147483648.0)
          vf_fail("reference", "reference peak %g out of range", pk / 2147483648.0);
        for (int k = 0; k < 3; k++)
        {
          int wd = wds[k];
          run(&d[k], b, &dconfs[0], wd);
          if (d[k].npcm / (wd / 8) != n)
          {
            vf_fail("length", "%d bits: %ld samples, %ld expected", wd, d[k].npcm / (wd / 8), n);
            continue;
          }
          double one = pow(2.0, 32 - wd), hi = pow(2.0, wd - 1) - 1, lo = -hi - 1;
          for (long i = 0; i < n; i++)
          {
            double v = samp(&ref, i, 32) * sc / one, g = samp(&d[k], i, wd);
            double tol = 1.0001 + 4e-6 * fmax(fabs(v), pk * sc / one) + sc / one * 2;
            double want = v > hi ? hi : v < lo ? lo : v;
            if (v > hi + tol || v < lo - tol)
            {
              nsat++;
              tol = wd == 32 ? 256 : 0; /* a single precision float cannot hold 2^31-1 */
            }
            vf_trans++;
            if (fabs(g - want) > tol)
            {
              vf_fail(v > hi || v < lo ? "saturation" : "value", "%d bits: sample %ld is %.0f, expected %.1f", wd, i, g, v);
              break;
            }
          }
        }
        consistent(d, kn[kind]);
        vf_nontriv += nsat > 0;
        vf_outcome((uint64_t)nsat + 1);
        if (gain == 200)
          vf_sample("%s gain %d: peak of the model %.0f x full scale, %ld samples saturate", kn[kind], gain, pk * sc / 2147483648.0, nsat);
        for (int k = 0; k < 3; k++)
          dec_free(&d[k]);
        dec_free(&ref);
        free(b0.d);
        free(b.d);
      }
  /* the same with limiter, conversion or resampling in the path: the three words against each other */
  for (int gain = 60; gain <= 255; gain += vf_thorough ? 2 : 12)
    for (int c = 0; c < NDCONF; c++)
      for (int kind = 0; kind < 4; kind++)
        if ((vf_thorough || (gain / 12 + c + kind) % 4 == 0) && vf_case("%s, gain %d, settings %s", kn[kind], gain, dconfs[c].name))
        {
          blob b = mk(kind, gain, nf);
          for (int k = 0; k < 3; k++)
            run(&d[k], b, &dconfs[c], wds[k]);
          consistent(d, dconfs[c].name);
          vf_outcome(vf_hash(d[0].pcm, d[0].npcm, 0));
          for (int k = 0; k < 3; k++)
            dec_free(&d[k]);
          free(b.d);
        }
  /* every synthesised stream */
  for (int id = 0; id < ST_ALL; id++)
    for (int c = 0; c < NDCONF; c++)
      if (dconf_ok(id, c) && vf_case("stream %s settings %s", st_title(id), dconfs[c].name))
      {
        blob b = st_build(id, 5);
        for (int k = 0; k < 3; k++)
          run(&d[k], b, &dconfs[c], wds[k]);
        consistent(d, st_title(id));
        for (int k = 0; k < 3; k++)
          dec_free(&d[k]);
        free(b.d);
      }
  return vf_finish();
}
