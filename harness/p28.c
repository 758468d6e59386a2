/* P28: configurations.  Each field of the configuration takes every value (or every class and boundary of values) around
 * a decodable stream; whether the stream is accepted is compared with the set the profile supports, and the output of an
 * accepted one with the model, or with the same stream in its plainest writing. */
#include "vf.h"
#include "model.h"
#include "streams.h"
#include "layouts.h"

static uint32_t rng;
static unsigned rnd(void)
{
  rng = rng * 1664525u + 1013904223u;
  return rng >> 16;
}
/* a stream of the given elements; its frames are the same whatever else the configuration says */
static void content(sb_t *s, rd_t *r, int nf)
{
  rng = 77;
  for (int f = 0; f < nf; f++)
  {
    int c = 0;
    for (int i = 0; i < s->cfg.nel; i++)
    {
      int t = s->cfg.el[i].type;
      for (int k = 0; k < (t == EL_CPE ? 2 : t == EL_EXT ? 0 : 1); k++, c++)
      {
        fd_ch *q = &s->ch[c];
        memset(q->q, 0, sizeof(q->q));
        q->win = t == EL_LFE ? W_LONG : ((const int[]){W_LONG, W_START, W_SHORT, W_STOP})[f & 3];
        q->max_sfb = t == EL_LFE ? 3 : q->win == W_SHORT ? 9 : 20;
        for (int b = 0; b < (t == EL_LFE ? 8 : 60); b++)
          q->q[b] = (int)(rnd() % 7) - 3;
        fd_gain(q, 118 + c % 5);
        q->arith_reset = f & 1;
      }
    }
    sb_frame(s, f == 0);
    if (r)
      rd_frame(r, s, f == 0);
  }
}
typedef struct
{
  int err, ch, fs;
  long n;
  uint64_t h;
  uint8_t *pcm;
} res_t;
static int raw_target = 0;
static res_t run_b(blob b)
{
  res_t r;
  dec_t d;
  memset(&r, 0, sizeof(r));
  dec_defaults(&d);
  d.in.ui_pcm_wd_sz = 32;
  if (raw_target)
    d.in.ui_cicp_layout_idx = raw_target;
  r.err = dec_all(&d, b, 0);
  r.n = d.npcm;
  r.ch = d.out.i_num_chan;
  r.fs = d.out.i_samp_freq;
  r.h = vf_hash(d.pcm, d.npcm, r.ch);
  r.pcm = (uint8_t *)malloc(d.npcm + 1);
  memcpy(r.pcm, d.pcm, d.npcm);
  dec_close(&d);
  dec_free(&d);
  vf_trans++;
  return r;
}
/* the stream with the configuration as it stands in s (frames: none yet) */
static res_t run(sb_t *s, int nf)
{
  blob b;
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  content(s, NULL, nf);
  b.d = sb_take(s, &b.n);
  res_t r = run_b(b);
  free(b.d);
  return r;
}
static void refused(res_t r, const char *sig, const char *what, int v)
{
  if (!r.err || r.n)
    vf_fail(sig, "%s %d was accepted: %x, %ld bytes of PCM", what, v, r.err, r.n);
  free(r.pcm);
}
static void same(res_t r, res_t want, const char *sig, const char *what, int v)
{
  if (r.err || r.n != want.n || r.ch != want.ch || r.h != want.h)
    vf_fail(sig, "%s %d: %x, %d channels, %ld bytes%s", what, v, r.err, r.ch, r.n, r.n == want.n ? ", other samples" : " instead");
  free(r.pcm);
}

static sb_t *lay_new(int cicp, const char *els)
{
  sb_t *s = sb_new();
  sx_layout(s, cicp, els);
  return s;
}
static sb_t *stereo(void) { return lay_new(2, "P"); }
#define EACH(make, mod, nf, out) \
  {                              \
    sb_t *s = make;              \
    mod;                         \
    out = run(s, nf);            \
    sb_del(s);                   \
  }
static const char *const els_of[21] = {"", "S", "P", "SP", "SPS", "SPP", "PSLP", "PSLPP", 0, "PS", "PP", "PSLPS", "PSLPP", 0, "PSLPP", 0, "PSLPPP", 0, 0, "PSLPPPP", 0};

#ifdef LC_LEVEL_4
#define MAXGRP 28
#else
#define MAXGRP 16
#endif
/* how many signals a profile level admits; objects alone are held to a larger number at level 3 */
static int admits(int profile, int n, int ref, int objects_only)
{
  switch (profile)
  {
  case 0x0b: case 0x10: return n <= 5 && ref <= 5;
  case 0x0c: case 0x11: return n <= 9 && ref <= 9;
  case 0x0d: case 0x12: return objects_only ? n <= 24 && ref <= 24 : n <= 16 && ref <= 16;
#ifdef LC_LEVEL_4
  case 0x0e: case 0x13: return n <= 24 && ref <= 24;
#endif
  }
  return 0;
}
static void ob_frames(sb_t *s, int nobj)
{
  static bw_t b;
  om_state om;
  om_t v[24];
  if (!b.d)
    bw_init(&b);
  bw_reset(&b);
  memset(&om, 0, sizeof(om));
  om.nobj = nobj;
  for (int i = 0; i < nobj; i++)
  {
    om_t o = {{i * 9 - 100, i % 7, 3, 28}};
    v[i] = o;
  }
  om_intra(&om, v, (const int[OM_N]){0}, &b);
  ob_md(s, ob_ext, &b);
}
static void profiles(void)
{
  static const int cl[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 16, 19};
  for (int k = 0; k < 14; k++)
    if (vf_case("every profile and level with layout %d", cl[k]))
    {
      res_t want, r;
      int n = sx_cicp_nch(cl[k]);
      EACH(lay_new(cl[k], els_of[cl[k]]), s->cfg.profile = 0x0d, 3, want);
      if (want.err || !want.n)
        vf_fail("profile", "level 3 refused: %x", want.err);
      for (int p = 0; p < 256; p++)
      {
        EACH(lay_new(cl[k], els_of[cl[k]]), s->cfg.profile = p, 3, r);
        if (admits(p, n, n, 0))
          same(r, want, "profile", "profile", p);
        else
          refused(r, "profile", "profile", p);
      }
      free(want.pcm);
      vf_nontriv++;
    }
  for (int n = 1; n <= 26; n++)
    for (int ref = 2; ref <= 13; ref += ref == 2 ? 4 : 7)
      if (vf_case("every profile and level with %d objects, layout %d", n, ref))
      {
        int nr = ref == 2 ? 2 : ref == 6 ? 6 : 24, full = vf_thorough || n == 2 || n == 17;
        res_t want = {0}, r;
        for (int p = 0x0d, first = 1; first || p < (full ? 256 : 0x18); p++)
        {
          sb_t *s = sb_new();
          ob_layout(s, ref, n, 0, 0, 0);
          s->cfg.profile = p;
          if (n <= 24)
            ob_frames(s, n);
          raw_target = 6;
          r = run(s, 2);
          raw_target = 0;
          sb_del(s);
          if (first)
          {
            if (n <= 24 && (r.err || !r.n))
              vf_fail("profile-objects", "level 3 refused: %x", r.err);
            want = r;
            first = 0;
            p = full ? -1 : 7;
            continue;
          }
          if (n <= 24 && admits(p, n, nr, 1))
            same(r, want, "profile-objects", "profile", p);
          else
            refused(r, "profile-objects", "profile", p);
        }
        free(want.pcm);
        vf_nontriv++;
      }
}
/* profiles listed as compatible stand in for one that is not supported */
static void put_ext(sb_t *s, int n) { bw_init(&s->cfg.cfgext); s->cfg.has_ext = 1; bw_esc(&s->cfg.cfgext, n - 1, 2, 4, 8); }
static void ext_head(sb_t *s, int type, int len) { bw_esc(&s->cfg.cfgext, type, 4, 8, 16); bw_esc(&s->cfg.cfgext, len, 4, 8, 16); }
static void compatible(void)
{
  for (int own = 0x0b; own <= 0x14; own++)
    for (int blk = 0; blk < 32; blk++)
    if (vf_case("profile %x with the compatible profiles %x to %x, alone and with another", own, blk * 8, blk * 8 + 7))
    {
      res_t want, r;
      EACH(stereo(), , 2, want);
      for (int a = blk * 8; a < blk * 8 + 8; a++)
        for (int b = -1; b <= (vf_thorough ? 255 : a >= 0x0a && a <= 0x15 ? 0x15 : -1); b += b < 0 ? vf_thorough ? 1 : 11 : 1)
        {
#ifdef LC_LEVEL_4
          if (a == 0x13 || b == 0x13)
            continue; /* not looked for among the compatible ones: see DESIGN.md */
#endif
          sb_t *s = stereo();
          s->cfg.profile = own;
          put_ext(s, 1);
          ext_head(s, 7, b < 0 ? 2 : 3);
          bw_put(&s->cfg.cfgext, b < 0 ? 0 : 1, 4);
          bw_put(&s->cfg.cfgext, 0, 4);
          bw_put(&s->cfg.cfgext, a, 8);
          if (b >= 0)
            bw_put(&s->cfg.cfgext, b, 8);
          r = run(s, 2);
          sb_del(s);
          int ok = admits(own, 2, 2, 0) || admits(a, 2, 2, 0) || (b >= 0 && admits(b, 2, 2, 0));
          if (ok)
            same(r, want, "compatible", "compatible profiles", a << 8 | (b & 255));
          else
            refused(r, "compatible", "compatible profiles", a << 8 | (b & 255));
        }
      free(want.pcm);
      vf_nontriv++;
    }
}
static void rates(void)
{
  for (int i = 0; i < 32; i++)
    if (vf_case("sampling rate index %d", i))
    {
      if (i >= 3 && i <= 8)
      {
        mt_t m = mt_new("P", 2, i);
        mt_begin(&m);
        content(m.s, &m.r, 8);
        m.rel = 2e-5;
        mt_check(&m, "rate");
        mt_free(&m);
      }
      else if (i != 31)
      {
        res_t r;
        EACH(stereo(), s->cfg.fs_idx = i, 3, r);
        refused(r, "rate", "sampling rate index", i);
      }
      vf_nontriv++;
    }
  /* explicit rates: those of the profile, the borders of the tables' ranges, and beyond */
  static const int hz[] = {48000, 44100, 32000, 29400, 24000, 22050, 16000, 14700, 46009, 46008, 37566, 37565, 27713, 27712, 23004, 23003, 18783, 18782, 13856, 47999, 44101, 40000, 20000, 15000};
  static const int lim[] = {46009, 37566, 27713, 23004, 18783, 13856};
  for (int i = 0; i < 24; i++)
    if (vf_case("explicit rate %d", hz[i]))
    {
      int fsi = 3;
      while (fsi < 8 && hz[i] < lim[fsi - 3])
        fsi++;
      mt_t m = mt_new("P", 2, 31);
      m.s->cfg.fs_hz = hz[i];
      m.s->cfg.fs_as = fsi;
      mt_begin(&m);
      content(m.s, &m.r, 8);
      m.rel = 2e-5;
      blob b;
      b.d = sb_take(m.s, &b.n);
      res_t r = run_b(b);
      free(b.d);
      if (r.err || r.ch != 2 || r.n < (8 * 1024 - 240) * 8)
        vf_fail("rate-explicit", "%d Hz: %x, %d channels, %ld bytes", hz[i], r.err, r.ch, r.n);
      const int32_t *p = (const int32_t *)r.pcm;
      for (long t = 0; t < r.n / 4; t++)
      {
        double tol = 1e-4 * m.r.mag[t / 2048 * 2 + (t & 1)] + 1e-3 + (t >= 2048 ? 1e-4 * m.r.mag[(t / 2048 - 1) * 2 + (t & 1)] : 0);
        if (fabs(p[t] / 65536.0 - m.r.pcm[t]) > tol)
        {
          vf_fail("rate-explicit", "%d Hz: sample %ld is %f instead of %f", hz[i], t, p[t] / 65536.0, m.r.pcm[t]);
          break;
        }
      }
      free(r.pcm);
      mt_free(&m);
      vf_nontriv++;
    }
  static const int bad[] = {0, 48001, 50000, 64000, 88200, 96000, 192000, 0x7fffff, 0x800000, 0xffffff};
  for (int i = 0; i < 10; i++)
    if (vf_case("explicit rate %d", bad[i]))
    {
      res_t r;
      EACH(stereo(), (s->cfg.fs_idx = 31, s->cfg.fs_hz = bad[i], s->cfg.fs_as = 3), 3, r);
      refused(r, "rate-explicit", "sampling rate", bad[i]);
      vf_nontriv++;
    }
}
static void fields(void)
{
  res_t want, r;
  for (int i = 0; i < 8; i++)
    if (vf_case("frame length index %d", i))
    {
      /* 768 samples, and lengths reached by band replication, are not of this profile */
      EACH(stereo(), , 3, want);
      EACH(stereo(), s->cfg.flen_idx = i, 3, r);
      if (i == 1)
        same(r, want, "frame-length", "index", i);
      else
        refused(r, "frame-length", "index", i);
      free(want.pcm);
      vf_nontriv++;
    }
  for (int i = 0; i < 4; i++)
    if (vf_case("reserved bit %d, delay compensation %d", i & 1, i >> 1))
    {
      EACH(stereo(), , 3, want);
      EACH(stereo(), (s->cfg.reserved = i & 1, s->cfg.rdc = i >> 1), 3, r);
      same(r, want, "spare", "bits", i);
      free(want.pcm);
      vf_nontriv++;
    }
  for (int i = 0; i < 64; i++)
    if (vf_case("layout %d", i))
    {
      EACH(stereo(), s->cfg.cicp = i, 3, r);
      if (i < 1 || i > 20)
        refused(r, "layout", "layout", i);
      else
        free(r.pcm);
      if (i >= 1 && i <= 20 && i != 8 && els_of[i])
      {
        EACH(lay_new(i, els_of[i]), , 3, r);
        if (r.err || r.ch != sx_cicp_nch(i) || r.n != (3 * 1024 - 240) * 4 * r.ch)
          vf_fail("layout", "layout %d: %x, %d channels, %ld bytes", i, r.err, r.ch, r.n);
        free(r.pcm);
      }
      vf_nontriv++;
    }
  for (int g = 0; g < 8; g++)
    if (vf_case("signal group type %d", g))
    {
      EACH(stereo(), s->cfg.grp[0].type = g, 3, r);
      if (g > 3)
        refused(r, "group", "group type", g);
      else
        free(r.pcm);
      vf_nontriv++;
    }
  for (int n = 1; n <= 32; n++)
    if ((n <= 16 || n > MAXGRP) && vf_case("%d groups of one object each", n))
    {
      sb_t *s = sb_new();
      ob_layout(s, 6, n <= 24 ? n : 1, 0, 0, 0);
      s->cfg.ngrp = 0;
      for (int i = 0; i < n; i++)
        sy_add_group(&s->cfg, SIG_OBJ, 1);
      if (n <= 24)
        ob_frames(s, n);
      r = run(s, 3);
      sb_del(s);
      if (n > MAXGRP)
        refused(r, "groups", "number of groups", n);
      else
      {
        res_t w;
        s = sb_new();
        ob_layout(s, 6, n, 0, 0, 0);
        ob_frames(s, n);
        w = run(s, 3);
        sb_del(s);
        same(r, w, "groups", "number of groups", n);
        free(w.pcm);
      }
      vf_nontriv++;
    }
  /* different kinds of groups need the delay compensation */
  for (int i = 0; i < 4; i++)
    if (vf_case("channels and objects in %s order, delay compensation %d", i & 1 ? "reverse" : "usual", i >> 1))
    {
      sb_t *s = sb_new();
      if (i & 1)
        ob_layout(s, 2, 2, 0, 0, 0), sy_add_group(&s->cfg, SIG_CH, 2), sy_add_el(&s->cfg, EL_CPE);
      else
        sx_layout(s, 2, "P"), ob_add(s, 2, 0, 0, 0);
      s->cfg.rdc = i >> 1;
      ob_frames(s, 2);
      r = run(s, 3);
      sb_del(s);
      if (i < 2)
        refused(r, "delay", "delay compensation", i >> 1);
      else if (!(i & 1) && (r.err || !r.n))
        vf_fail("delay", "refused with %x", r.err);
      if (i >= 2)
        free(r.pcm);
      vf_nontriv++;
    }
}
static void elements(void)
{
  res_t want, r;
  static const uint8_t z[2048];
  if (vf_case("time warping, quad channel element"))
  {
    for (int i = 0; i < 2; i++)
    {
      EACH(i ? stereo() : lay_new(1, "S"), s->cfg.el[0].tw = 1, 3, r);
      refused(r, "lc-tools", "time warping", i);
    }
    for (int q = 1; q < 4; q++)
    {
      EACH(stereo(), s->cfg.el[0].qce = q, 3, r);
      refused(r, "lc-tools", "quad channel element", q);
    }
    vf_nontriv++;
  }
  /* each of the elements of a 5.1 stream: its length written in front has no influence */
  static const char *const le[] = {"S", "P", "SP", "PSLP", "SSS", "PSLPP", "MPSLP"};
  static const int lc[] = {1, 2, 3, 6, 3, 7, 6};
  for (int i = 0; i < 7; i++)
    if (vf_case("lengths of elements written, %s", le[i]))
    {
      EACH(lay_new(lc[i], le[i]), , 9, want);
      EACH(lay_new(lc[i], le[i]), s->cfg.el_len_present = 1, 9, r);
      if (want.err || !want.n)
        vf_fail("element-length", "without lengths: %x", want.err);
      same(r, want, "element-length", "layout", lc[i]);
      free(want.pcm);
      vf_nontriv++;
    }
  /* numbers of elements, through the borders of the escape code: extension elements in front and behind */
  for (int n = 1; n <= 62; n++)
    if (vf_case("%d elements", n))
    {
      EACH(stereo(), , 3, want);
      for (int at = 0; at < (n > 1 ? 3 : 1); at++)
      {
        sb_t *s = sb_new();
        sy_cfg_default(&s->cfg, 2);
        sy_add_group(&s->cfg, SIG_CH, 2);
        for (int i = 0; i < n; i++)
        {
          int cpe = i == (at == 0 ? 0 : at == 1 ? n - 1 : n / 2);
          sy_el *e = sy_add_el(&s->cfg, cpe ? EL_CPE : EL_EXT);
          e->ext_type = i & 1 ? 100 + i : EXT_FILL;
        }
        r = run(s, 3);
        sb_del(s);
        if (n <= 50)
          same(r, want, "elements", "number of elements", n);
        else
          refused(r, "elements", "number of elements", n);
      }
      free(want.pcm);
      vf_nontriv++;
    }
  /* lengths and types of configuration of unknown extension elements */
  for (int blk = 0; blk < 48; blk++)
    if (vf_case("extension element configurations of %d to %d bytes", blk * 32, blk * 32 + 31))
    {
      EACH(stereo(), , 3, want);
      for (int n = blk * 32; n < blk * 32 + 32; n++)
        if (n < 1536)
        {
          static const int types[] = {64, 14 + 64, 127, 128, 300, 15 + 254, 15 + 255, 15 + 256, 65535};
          sb_t *s = sb_new();
          sy_cfg_default(&s->cfg, 2);
          sy_add_group(&s->cfg, SIG_CH, 2);
          sy_el *e = sy_add_el(&s->cfg, EL_EXT);
          e->ext_type = types[n % 9];
          e->ext_cfg = z;
          e->ext_cfg_len = n;
          e->ext_deflen = n % 5 ? n : 0;
          sy_add_el(&s->cfg, EL_CPE);
          r = run(s, 3);
          sb_del(s);
          same(r, want, "ext-config", "bytes", n);
        }
      free(want.pcm);
      vf_nontriv++;
    }
  /* default lengths of the payload, through the borders of their code */
  static const int dl[] = {1, 2, 3, 14, 15, 16, 254, 255, 256, 257, 258, 259, 300, 511, 512, 600};
  for (int i = 0; i < 16; i++)
    if (vf_case("default payload length %d", dl[i]))
    {
      EACH(stereo(), , 3, want);
      for (int how = 0; how < 3; how++)
      {
        sb_t *s = sb_new();
        sy_cfg_default(&s->cfg, 2);
        sy_add_group(&s->cfg, SIG_CH, 2);
        sy_el *e = sy_add_el(&s->cfg, EL_EXT);
        e->ext_type = how == 2 ? EXT_FILL : 100;
        e->ext_deflen = dl[i];
        sy_add_el(&s->cfg, EL_CPE);
        s->ext[0].present = how > 0;
        s->ext[0].use_default = 1;
        s->ext[0].n = dl[i];
        memset(s->ext[0].d, how == 2 ? 0xa5 : 0x3c, dl[i]);
        r = run(s, 3);
        sb_del(s);
        same(r, want, "ext-default", "length", dl[i]);
      }
      free(want.pcm);
      vf_nontriv++;
    }
}
static void crowds(void)
{
  res_t r;
  /* more than 16 signals: single elements without noise filling only */
  for (int n = 15; n <= 19; n++)
    if (vf_case("elements of %d objects", n))
    {
      for (int how = 0; how < 5; how++)
      {
        sb_t *s = sb_new();
        ob_layout(s, 6, n, 0, 0, 0);
        ob_frames(s, n);
        if (how == 1 || how == 2)
          for (int i = 0; i < n; i++)
            if (how == 1 || i == n / 2)
              s->cfg.el[i].nf = 1;
        if (how == 3)
          s->cfg.el[1].enf = s->cfg.el[1].nf = 0, s->cfg.el[1].type = EL_CPE, memmove(&s->cfg.el[2], &s->cfg.el[3], (s->cfg.nel - 3) * sizeof(sy_el)), s->cfg.nel--, s->ext[n - 1] = s->ext[n], s->ext[n].present = 0;
        if (how == 4)
          s->cfg.el[n - 1].type = EL_LFE;
        r = run(s, 2);
        sb_del(s);
        if (n > 16 && how)
          refused(r, "crowd", "element kind", how);
        else if (r.err || !r.n)
          vf_fail("crowd", "element kind %d: refused with %x", how, r.err), free(r.pcm);
        else
          free(r.pcm);
      }
      vf_nontriv++;
    }
}
/* configuration extensions: how many, how long, in which order */
static void extensions(void)
{
  res_t want, r;
  for (int n = 1; n <= 40; n++)
    if (vf_case("%d configuration extensions", n))
    {
      EACH(stereo(), , 3, want);
      for (int k = 0; k < 3; k++)
      {
        sb_t *s = stereo();
        put_ext(s, n);
        for (int i = 0; i < n; i++)
        {
          int len = k * (i + 3);
          ext_head(s, i & 1 ? 0 : 90 + i, len);
          for (int j = 0; j < len; j++)
            bw_put(&s->cfg.cfgext, 0xa5, 8);
        }
        r = run(s, 3);
        sb_del(s);
        if (n <= 5)
          same(r, want, "config-ext", "number", n);
        else
          refused(r, "config-ext", "number", n);
      }
      free(want.pcm);
      vf_nontriv++;
    }
  for (int blk = 0; blk < 49; blk++)
    if (vf_case("configuration extensions of %d to %d bytes", blk * 32, blk * 32 + 31))
    {
      EACH(stereo(), , 3, want);
      for (int n = blk * 32; n < blk * 32 + 32 && n <= 1536; n++)
        for (int k = 0; k < 2; k++)
        {
          sb_t *s = stereo();
          put_ext(s, 2);
          ext_head(s, k ? 0 : 64 + n % 3 * 200, n);
          for (int j = 0; j < n; j++)
            bw_put(&s->cfg.cfgext, 0xa5, 8);
          ext_head(s, 0, 3);
          bw_put(&s->cfg.cfgext, 0xa5a5a5, 24);
          r = run(s, 3);
          sb_del(s);
          same(r, want, "config-ext", "bytes", n);
        }
      free(want.pcm);
      vf_nontriv++;
    }
  if (vf_case("fill bytes of a configuration extension"))
  {
    EACH(stereo(), , 3, want);
    for (int v = 0; v < 256; v++)
      for (int at = 0; at < 3; at++)
      {
        sb_t *s = stereo();
        put_ext(s, 1);
        ext_head(s, 0, 3);
        for (int j = 0; j < 3; j++)
          bw_put(&s->cfg.cfgext, j == at ? v : 0xa5, 8);
        r = run(s, 3);
        sb_del(s);
        if (v == 0xa5)
          same(r, want, "fill-byte", "byte", v);
        else
          refused(r, "fill-byte", "byte", v);
      }
    free(want.pcm);
    vf_nontriv++;
  }
  /* each known extension has its declared length: whatever it holds, the one behind it is found.  The fill bytes of the
   * last tell whether it was. */
  for (int g = 1; g <= 16; g++)
    if (vf_case("group information of %d groups, padded by 0 to 3 bytes", g))
      for (int pad = 0; pad < 4; pad++)
        for (int order = 0; order < 3; order++)
        {
          sb_t *s = sb_new();
          ob_layout(s, 6, g, 0, 0, 0);
          s->cfg.ngrp = 0;
          for (int i = 0; i < g; i++)
            sy_add_group(&s->cfg, SIG_OBJ, 1);
          ob_frames(s, g);
          put_ext(s, 3);
          for (int k = 0; k < 3; k++)
            if (k == order)
            {
              ext_head(s, 6, (g + 1) / 2 + pad);
              for (int i = 0; i < g; i++)
                bw_put(&s->cfg.cfgext, (i * 5 + 2) & 15, 4);
              for (int i = g; i < ((g + 1) / 2 + pad) * 2; i++)
                bw_put(&s->cfg.cfgext, 0, 4);
            }
            else
            {
              ext_head(s, 0, 2);
              bw_put(&s->cfg.cfgext, 0xa5a5, 16);
            }
          r = run(s, 2);
          sb_del(s);
          res_t w;
          s = sb_new();
          ob_layout(s, 6, g, 0, 0, 0);
          ob_frames(s, g);
          w = run(s, 2);
          sb_del(s);
          same(r, w, "group-info", "padding", pad);
          free(w.pcm);
          vf_nontriv++;
        }
  for (int n = 1; n <= 16; n++)
    if (vf_case("a set of %d compatible profiles, padded by 0 to 3 bytes", n))
    {
      EACH(stereo(), , 3, want);
      for (int pad = 0; pad < 4; pad++)
        for (int order = 0; order < 3; order++)
        {
          sb_t *s = stereo();
          put_ext(s, 3);
          for (int k = 0; k < 3; k++)
            if (k == order)
            {
              ext_head(s, 7, 1 + n + pad);
              bw_put(&s->cfg.cfgext, n - 1, 4);
              bw_put(&s->cfg.cfgext, 0, 4);
              for (int i = 0; i < n; i++)
                bw_put(&s->cfg.cfgext, 0x0d, 8);
              for (int i = 0; i < pad; i++)
                bw_put(&s->cfg.cfgext, 0, 8);
            }
            else
            {
              ext_head(s, 0, 2);
              bw_put(&s->cfg.cfgext, 0xa5a5, 16);
            }
          r = run(s, 3);
          sb_del(s);
          same(r, want, "compatible-length", "padding", pad);
        }
      free(want.pcm);
      vf_nontriv++;
    }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  profiles();
  compatible();
  rates();
  fields();
  elements();
  crowds();
  extensions();
  return vf_finish();
}
