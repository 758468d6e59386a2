/* P29: what an external renderer is handed.  Enumerated: kinds of content (channel layouts given by index or as a list,
 * objects, scenes) alone and combined in every order, target layouts, priorities and the fixed-position flag per group, and
 * the enhanced object metadata (diffuseness, divergence, excluded sectors: every value, common or per object, kept or sent
 * again).  Oracle: the configuration and values the encoder wrote, field by field; for the signals the samples of every
 * coded signal decoded alone; and the rendered output is the one without an external renderer, bit by bit. */
#include "vf.h"
#include "streams.h"
#include "objects.h"
#include "hoa.h"
enum { CH = 1, OB = 2, SC = 4 };
#define T 1024
#define MAXFR 64
static uint8_t bc[768], bo[768], bh[768], bp[T * 32 * 4];
static struct
{
  uint8_t c[768], o[768], h[768];
  int nc, no, nh, np;
  uint8_t *p;
  int oo, ho, pc, po, ph, depth;
} fr[MAXFR];
static int nfr;
static void watch(dec_t *d, int executing)
{
  if (!executing || d->out.num_out_bytes <= 0 || nfr >= MAXFR)
    return;
  memcpy(fr[nfr].c, bc, 768);
  memcpy(fr[nfr].o, bo, 768);
  memcpy(fr[nfr].h, bh, 768);
  fr[nfr].nc = d->out.ch_md_payload_length;
  fr[nfr].no = d->out.oam_md_payload_length;
  fr[nfr].nh = d->out.hoa_md_payload_length;
  fr[nfr].np = d->out.pcm_payload_length;
  fr[nfr].pc = d->out.ch_data_present;
  fr[nfr].po = d->out.oam_data_present;
  fr[nfr].ph = d->out.hoa_data_present;
  fr[nfr].oo = d->out.oam_sample_offset;
  fr[nfr].ho = d->out.hoa_sample_offset;
  fr[nfr].depth = d->out.pcm_bit_depth;
  fr[nfr].p = (uint8_t *)malloc(sizeof bp);
  memcpy(fr[nfr].p, bp, sizeof bp);
  nfr++;
  memset(bp, 0x5a, sizeof bp);
  memset(bc, 0xa5, sizeof bc);
  memset(bo, 0xa5, sizeof bo);
  memset(bh, 0xa5, sizeof bh);
}
static void drop(void)
{
  while (nfr > 0)
    free(fr[--nfr].p);
}
/* a coded signal alone: no loudness, no conversion */
#define NF 6
static void content(fd_ch *x, int i, int lfe, int loud, int f)
{
  x->win = W_LONG;
  x->arith_reset = 1;
  x->max_sfb = lfe ? 3 : 30;
  sx_fill(x, 3, 5 + i * 11 + f % 4 * 400, 20);
  fd_gain(x, loud ? 190 : 120 + i % 5);
}
static int32_t *alone(int i, int lfe, int loud)
{
  static int32_t *mem[32][2][2];
  int32_t **m = &mem[i][lfe][loud];
  if (*m)
    return *m;
  sb_t *s = sb_new();
  sx_layout(s, 1, lfe ? "L" : "S");
  s->cfg.fs_idx = 4; /* the same bands as at 48 kHz, and no limiter */
  if (lfe) /* a low-frequency signal is a single channel whose lines happen to be few */
    s->cfg.el[0].type = EL_SCE;
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < NF + 2; f++)
  {
    content(&s->ch[0], i, lfe, loud, f);
    sb_frame(s, 1);
  }
  blob b;
  dec_t d;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  dec_defaults(&d);
  d.in.ui_pcm_wd_sz = 32;
  dec_all(&d, b, NF + 20);
  free(b.d);
  if (d.npcm < (NF + 1) * T * 4)
    printf("HARNESS signal alone not decoded\n"), exit(3);
  *m = (int32_t *)malloc(NF * T * 4);
  memcpy(*m, d.pcm, NF * T * 4);
  dec_free(&d);
  return *m;
}
/* the enhanced object metadata of an encoder */
typedef struct
{
  int n, pre[15], idx[15], a0[15], a1[15], e0[15], e1[15];
} sect;
typedef struct
{
  int diff, diff_common, ex, ex_common, near, only[OM_MAX], div[OM_MAX], range[OM_MAX];
} enh_cfg;
typedef struct
{
  int keep_ex[OM_MAX], keep_diff[OM_MAX], keep_div[OM_MAX], near[OM_MAX], diff[OM_MAX], div[OM_MAX];
  sect ex[OM_MAX];
} enh_fr;
static void put_sect(bw_t *b, const sect *x, int only)
{
  bw_put(b, x->n, 4);
  for (int i = 0; i < x->n; i++)
  {
    if (!only)
      bw_put(b, x->pre[i], 1);
    if (only || x->pre[i])
      bw_put(b, x->idx[i], 4);
    else
      bw_put(b, x->a0[i], 7), bw_put(b, x->a1[i], 7), bw_put(b, x->e0[i], 5), bw_put(b, x->e1[i], 5);
  }
}
static void enh_put_cfg(bw_t *b, const enh_cfg *c, int nobj)
{
  bw_put(b, c->diff, 1);
  if (c->diff)
    bw_put(b, c->diff_common, 1);
  bw_put(b, c->ex, 1);
  if (c->ex)
  {
    bw_put(b, c->ex_common, 1);
    if (c->ex_common)
      bw_put(b, c->only[0], 1);
  }
  bw_put(b, c->near > 0, 1);
  if (c->near)
    bw_put(b, c->near, 7);
  for (int i = 0; i < nobj; i++)
  {
    bw_put(b, c->div[i], 1);
    if (c->div[i])
      bw_put(b, c->range[i], 6);
    if (!c->ex_common || !c->ex)
      bw_put(b, c->only[i], 1);
  }
}
static void enh_put(bw_t *b, const enh_cfg *c, const enh_fr *f, int nobj, int indep)
{
  if (c->ex && c->ex_common)
  {
    if (!indep)
      bw_put(b, f->keep_ex[0], 1);
    if (indep || !f->keep_ex[0])
      put_sect(b, &f->ex[0], c->only[0]);
  }
  if (c->diff && c->diff_common)
  {
    if (!indep)
      bw_put(b, f->keep_diff[0], 1);
    if (indep || !f->keep_diff[0])
      bw_put(b, f->diff[0], 7);
  }
  for (int i = 0; i < nobj; i++)
  {
    bw_put(b, f->near[i], 1);
    if (c->div[i])
    {
      if (!indep)
        bw_put(b, f->keep_div[i], 1);
      if (indep || !f->keep_div[i])
        bw_put(b, f->div[i], 7);
    }
    if (c->diff && !c->diff_common)
    {
      if (!indep)
        bw_put(b, f->keep_diff[i], 1);
      if (indep || !f->keep_diff[i])
        bw_put(b, f->diff[i], 7);
    }
    if (!c->ex || !c->ex_common)
    {
      if (!indep)
        bw_put(b, f->keep_ex[i], 1);
      if (indep || !f->keep_ex[i])
        put_sect(b, &f->ex[i], c->only[i]);
    }
  }
}
/* content of a stream */
typedef struct
{
  int ng, kind[3];             /* order of the groups */
  int cicp, listed, differs;   /* channels: layout, given as a list of loudspeakers, given for the group */
  const char *els;
  int nobj, order, ntr;
  int info, prio[3], fixed[3]; /* group info present */
  int nfc, target, loud, alldep;
  int enh;
  enh_cfg ec;
  enh_fr ef[NF + 2];
  om_t v[NF + 2][OM_MAX];
} scene;
static int rd(const uint8_t *p, int *pos, int n)
{
  int v = 0;
  while (n--)
    v = v << 1 | (p[*pos >> 3] >> (7 - (*pos & 7)) & 1), ++*pos;
  return v;
}
static scene S;
static int nch_of(const char *e)
{
  int n = 0;
  for (; *e; e++)
    n += *e == 'P' ? 2 : 1;
  return n;
}
static blob build(const scene *s, uint8_t *lfe, int *ncore)
{
  static om_state om;
  static bw_t b0, eb;
  if (!b0.d)
    bw_init(&b0), bw_init(&eb);
  memset(&om, 0, sizeof om);
  om.nobj = s->nobj;
  om.uniform = 1;
  sb_t *t = sb_new();
  ho_cfg hc;
  ho_default(&hc, s->order, s->ntr, -1);
  hc.nfc = s->nfc;
  sy_cfg_default(&t->cfg, s->cicp);
  if (s->differs)
    t->cfg.cicp = s->differs;
  if (s->listed)
  {
    t->cfg.layout_type = 1;
    t->cfg.nspk = 0;
    for (int i = 0; i < 16 && i < nch_of(s->els); i++)
    {
      static const int six[] = {0, 1, 2, 3, 4, 5}; /* CICP loudspeakers of layout 6 */
      t->cfg.spk[t->cfg.nspk++] = six[i];
    }
  }
  t->cfg.rdc = s->ng > 1;
  int nc = 0, ob = 0, hb = 0, cb = 0, enh_el = 0;
  for (int g = 0; g < s->ng; g++)
    if (s->kind[g] == CH)
    {
      cb = nc;
      int gi = sy_add_group(&t->cfg, SIG_CH, nch_of(s->els));
      t->cfg.grp[gi].differs = s->differs > 0;
      t->cfg.grp[gi].cicp = s->cicp;
      for (const char *p = s->els; *p; p++)
      {
        sy_add_el(&t->cfg, *p == 'S' ? EL_SCE : *p == 'L' ? EL_LFE : EL_CPE);
        lfe[nc++] = *p == 'L';
        if (*p == 'P')
          lfe[nc++] = 0;
      }
    }
    else if (s->kind[g] == OB)
    {
      ob = nc;
      ob_add(t, s->nobj, 0, 1, 0);
      if (s->enh)
      {
        bw_reset(&eb);
        enh_put_cfg(&eb, &s->ec, s->nobj);
        bw_align(&eb);
        enh_el = t->cfg.nel;
        sy_el *e = sy_add_el(&t->cfg, EL_EXT);
        e->ext_type = EXT_ENHOAM;
        e->ext_cfg = eb.d;
        e->ext_cfg_len = bw_len(&eb);
      }
      for (int i = 0; i < s->nobj; i++)
        lfe[nc++] = 0;
    }
    else
    {
      hb = nc;
      ho_add(t, &hc);
      for (int i = 0; i < s->ntr; i++)
        lfe[nc++] = 0;
    }
  *ncore = nc;
  if (s->info)
  {
    bw_t *x = &t->cfg.cfgext;
    t->cfg.has_ext = 1;
    bw_init(x);
    bw_esc(x, 0, 2, 4, 8);
    bw_esc(x, 6, 4, 8, 16);
    bw_esc(x, (s->ng + 1) / 2, 4, 8, 16);
    for (int g = 0; g < s->ng; g++)
      bw_put(x, s->prio[g], 3), bw_put(x, s->fixed[g], 1);
    if (s->ng & 1)
      bw_put(x, 0, 4);
  }
  sb_config(t);
  sb_channels(t);
  for (int f = 0; f < NF + 2; f++)
  {
    int indep = s->alldep ? f == 0 : f % 3 == 0;
    for (int i = 0; i < nc; i++)
      content(&t->ch[i], i, lfe[i], s->loud, f);
    for (int g = 0; g < s->ng; g++)
      if (s->kind[g] == OB)
      {
        bw_reset(&b0);
        om_intra(&om, s->v[f], (const int[OM_N]){0}, &b0);
        ob_md(t, ob_ext, &b0);
        if (s->enh)
        {
          bw_reset(&b0);
          enh_put(&b0, &s->ec, &s->ef[f], s->nobj, indep);
          ob_md(t, enh_el, &b0);
        }
      }
      else if (s->kind[g] == SC)
      {
        ho_fr fr1;
        ho_fr0(&fr1);
        for (int i = 0; i < s->ntr; i++)
        {
          fr1.ch[i].type = HT_AMB;
          fr1.ch[i].amb = i + 1;
        }
        fr1.indep = indep;
        if (!indep)
          fr1.indep = 1, indep = indep;
        ho_md(t, ho_ext, &hc, &fr1);
      }
    (void)cb;
    (void)ob;
    (void)hb;
    sb_frame(t, indep);
  }
  blob b;
  b.d = sb_take(t, &b.n);
  sb_del(t);
  return b;
}
static int quiet, unread;
#define told_fail(...) (quiet ? (void)0 : (void)vf_fail(__VA_ARGS__))
static int told(const scene *s, int f, const char *what, int ncore)
{
  const uint8_t *p;
  int pos = 0, v, i = 0;
#define EXPECT(n, e, name)                                                                                            \
  {                                                                                                                   \
    int w_ = (e);                                                                                                     \
    if ((v = rd(p, &pos, n)) != w_)                                                                                   \
    {                                                                                                                 \
      if (!quiet) vf_fail(name, "%s: frame %d signal %d: the renderer is told %s %d, meant %d", what, f, i, name, v, w_);          \
      return 0;                                                                                                       \
    }                                                                                                                 \
  }
  int has[8] = {0}, at[8] = {0}, n = 0, gi[8] = {0};
  for (int g = 0; g < s->ng; g++)
  {
    has[s->kind[g]] = 1;
    gi[s->kind[g]] = g;
    at[s->kind[g]] = n;
    n += s->kind[g] == CH ? nch_of(s->els) : s->kind[g] == OB ? s->nobj : s->ntr;
  }
#define PRIO(k) (s->info ? s->prio[gi[k]] : 7)
#define FIX(k) (s->info ? s->fixed[gi[k]] : 1)
  if (fr[f].pc != has[CH] || fr[f].po != has[OB] || fr[f].ph != has[SC])
    return told_fail("kinds", "%s: announced: channels %d objects %d scene %d", what, fr[f].pc, fr[f].po, fr[f].ph), 0;
  if (fr[f].np != 3 * T * ncore || fr[f].depth != 24)
    return told_fail("signal-size", "%s: %d bytes of signals of %d bits announced, %d signals coded", what, fr[f].np, fr[f].depth, ncore), 0;
  if (has[OB] && fr[f].oo != at[OB])
    return told_fail("object-offset", "%s: frame %d: objects announced to start at signal %d, they start at %d", what, f, fr[f].oo, at[OB]), 0;
  if (has[SC] && fr[f].ho != at[SC])
    return told_fail("scene-offset", "%s: frame %d: scene announced to start at signal %d, it starts at %d", what, f, fr[f].ho, at[SC]), 0;
  if (has[CH])
  {
    p = fr[f].c;
    pos = 0;
    EXPECT(6, T >> 6, "channel-frame-length")
    EXPECT(2, 0, "channel-truncation")
    EXPECT(9, 1, "channel-groups")
    EXPECT(16, nch_of(s->els), "channel-count")
    if (s->listed && !s->differs)
    {
      int k = nch_of(s->els);
      EXPECT(2, 1, "channel-layout-type")
      EXPECT(5, k - 1, "channel-speakers")
      for (i = 0; i < k; i++)
        EXPECT(7, i, "channel-speaker")
      i = 0;
    }
    else
    {
      EXPECT(2, 0, "channel-layout-type")
      EXPECT(6, s->cicp, "channel-layout")
    }
    pos += 9 * nch_of(s->els); /* element identifiers: the stream carries none */
    EXPECT(1, FIX(CH), "channel-fixed")
    EXPECT(3, PRIO(CH), "channel-priority")
    pos += 8;
    EXPECT(1, 0, "channel-downmix")
    EXPECT(3, 0, "channel-extensions")
    if ((pos + 7) / 8 != fr[f].nc)
      return told_fail("channel-size", "%s: frame %d: %d bytes announced, %d written", what, f, fr[f].nc, (pos + 7) / 8), 0;
  }
  if (has[OB])
  {
    p = fr[f].o;
    pos = 0;
    EXPECT(6, T >> 6, "object-frame-length")
    EXPECT(2, 0, "object-truncation")
    EXPECT(9, s->nobj, "object-count")
    for (i = 0; i < s->nobj; i++)
    {
      const om_t *o = &s->v[f][i];
      EXPECT(9, at[OB] + i, "object-id")
      EXPECT(1, 0, "object-has-priority")
      EXPECT(1, 1, "object-uniform")
      EXPECT(6, 1, "object-subframes")
      EXPECT(1, 1, "object-presence")
      EXPECT(8, o->v[OM_AZ] & 255, "object-azimuth")
      EXPECT(6, o->v[OM_EL] & 63, "object-elevation")
      EXPECT(4, o->v[OM_RAD], "object-radius")
      EXPECT(7, o->v[OM_GAIN] & 127, "object-gain")
      EXPECT(7, o->v[OM_SW], "object-spread")
      EXPECT(1, FIX(OB), "object-fixed")
      EXPECT(3, PRIO(OB), "object-group-priority")
      const enh_cfg *c = &s->ec;
      int k = f, e = s->enh && !unread;
      /* the value in force: sent in this frame or in the last one that sent it */
#define SENT(keep, j) while (k > 0 && (s->alldep || k % 3) && s->ef[k].keep[j]) k--
      int j = c->diff_common ? 0 : i;
      SENT(keep_diff, j);
      EXPECT(7, e && c->diff ? s->ef[k].diff[j] : 0, "diffuseness")
      k = f;
      SENT(keep_div, i);
      EXPECT(7, e && c->div[i] ? s->ef[k].div[i] : 0, "divergence")
      EXPECT(6, s->enh && c->div[i] ? c->range[i] : 0, "divergence-range")
      k = f;
      j = c->ex && c->ex_common ? 0 : i;
      SENT(keep_ex, j);
      const sect *x = &s->ef[k].ex[j];
      EXPECT(4, e ? x->n : 0, "sectors")
      for (int q = 0; e && q < x->n; q++)
      {
        int pre = c->only[j] || x->pre[q];
        EXPECT(1, pre, "sector-predefined")
        if (pre)
          EXPECT(4, x->idx[q], "sector-index")
        else
        {
          /* the range of angles ends at 180 and 90 degrees */
          int a0 = x->a0[q] < 3 ? 3 : x->a0[q] > 123 ? 123 : x->a0[q], a1 = x->a1[q] < 3 ? 3 : x->a1[q] > 123 ? 123 : x->a1[q];
          int e0 = x->e0[q] > 30 ? 30 : x->e0[q], e1 = x->e1[q] > 30 ? 30 : x->e1[q];
          EXPECT(7, a0, "sector-from")
          EXPECT(7, a1, "sector-to")
          EXPECT(5, e0, "sector-low")
          EXPECT(5, e1, "sector-high")
        }
      }
    }
    EXPECT(3, 0, "object-extensions")
    if ((pos + 7) / 8 != fr[f].no)
      return told_fail("object-size", "%s: frame %d: %d bytes announced, %d written", what, f, fr[f].no, (pos + 7) / 8), 0;
  }
  if (has[SC])
  {
    p = fr[f].h;
    pos = 0;
    i = 0;
    EXPECT(6, T >> 6, "scene-frame-length")
    EXPECT(2, 0, "scene-truncation")
    EXPECT(9, 1, "scene-groups")
    EXPECT(1, FIX(SC), "scene-fixed")
    EXPECT(3, PRIO(SC), "scene-priority")
    EXPECT(9, s->order, "scene-order")
    EXPECT(1, 0, "scene-near-field")
    EXPECT(1, 0, "scene-matrix")
    EXPECT(1, 0, "scene-screen")
    if ((pos + 7) / 8 != fr[f].nh)
      return told_fail("scene-size", "%s: frame %d: %d bytes announced, %d written", what, f, fr[f].nh, (pos + 7) / 8), 0;
  }
  return 1;
}
static void check(const char *what)
{
  scene *s = &S;
  uint8_t lfe[64];
  int nc;
  blob b = build(s, lfe, &nc);
  dec_t d, e;
  for (int i = 0; i < 2; i++)
  {
    dec_t *x = i ? &e : &d;
    dec_defaults(x);
    x->in.ui_pcm_wd_sz = 32;
    if (s->target)
      x->in.ui_cicp_layout_idx = s->target;
    if (!i)
    {
      x->in.extrn_rend_flag = 1;
      x->in.ptr_ext_ren_ch_data_buf = bc;
      x->in.ptr_ext_ren_oam_data_buf = bo;
      x->in.ptr_ext_ren_hoa_data_buf = bh;
      x->in.ptr_ext_ren_pcm_buf = bp;
      dec_watch = watch;
    }
    dec_all(x, b, NF + 30);
    dec_watch = 0;
  }
  free(b.d);
  long fb = (long)T * 4 * d.out.i_num_chan;
  if (d.err_create || d.err_init || d.err_exec || d.npcm < fb * NF)
    vf_fail("not-decoded", "%s: create %x init %x execute %x (without a renderer %x %x %x), %ld bytes", what, d.err_create, d.err_init, d.err_exec, e.err_create, e.err_init, e.err_exec, (long)d.npcm);
  else if (e.npcm != d.npcm || memcmp(d.pcm, e.pcm, e.npcm))
    vf_fail("rendered", "%s: the output is not the one without an external renderer (%ld and %ld bytes)", what, (long)d.npcm, (long)e.npcm);
  else if (nfr < NF)
    vf_fail("frames", "%s: %d frames handed out", what, nfr);
  else
  {
    int dead = s->enh;
    quiet = unread = 1;
    for (int f = 0; f < NF && dead; f++)
      dead = told(s, f, what, nc);
    quiet = unread = 0;
    if (dead)
      vf_fail("enhanced-not-read", "%s: the renderer is told that no object has enhanced metadata", what);
    for (int f = 0; f < NF && !dead; f++)
      if (!told(s, f, what, nc))
        break;
    for (int i = 0; i < nc; i++)
    {
      int32_t *y = alone(i, lfe[i], s->loud);
      int bad = 0;
      for (int f = 0; f < NF && !bad; f++)
        for (int k = 0; k < T && !bad; k++)
        {
          const uint8_t *q = fr[f].p + 3 * (k * nc + i);
          int32_t v = (int32_t)((uint32_t)q[0] << 8 | (uint32_t)q[1] << 16 | (uint32_t)q[2] << 24);
          double dv = fabs((double)v - y[f * T + k]);
          if (dv > 512 + 3e-7 * fabs((double)v))
          {
            vf_fail("signal", "%s: signal %d of %d frame %d sample %d: handed out %d, coded %d", what, i, nc, f, k, v / 256, y[f * T + k] / 256);
            bad = 1;
          }
          else if (labs(v) > 70000)
            vf_nontriv++;
        }
      if (bad)
        break;
    }
    for (long k = (long)NF; k < nfr; k++)
      vf_trans++;
    vf_trans += NF;
    for (int f = 0; f < NF; f++)
    {
      uint64_t h = 1469598103934665603ull;
      for (int k = 0; k < 96; k++)
        h = (h ^ fr[f].o[k] ^ (uint64_t)fr[f].c[k] << 8 ^ (uint64_t)fr[f].h[k] << 16) * 1099511628211ull;
      vf_outcome(h);
    }
  }
  drop();
  dec_free(&d);
  dec_free(&e);
}
static void fresh(void)
{
  memset(&S, 0, sizeof S);
  S.cicp = 6;
  S.els = "PSLP";
  S.nobj = 2;
  S.order = 1;
  S.ntr = 4;
  for (int f = 0; f < NF + 2; f++)
    for (int i = 0; i < OM_MAX; i++)
    {
      om_t n = {{(i * 37 + f * 11) % 200 - 100, (i * 7 + f) % 40 - 15, 3, 20 - i, f, f, f, 0}};
      S.v[f][i] = n;
    }
}
static const char *kinds(const scene *s)
{
  static char t[80];
  t[0] = 0;
  for (int g = 0; g < s->ng; g++)
    sprintf(t + strlen(t), "%s%s", g ? "+" : "", s->kind[g] == CH ? "channels" : s->kind[g] == OB ? "objects" : "scene");
  return t;
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  static const struct { int cicp; const char *els; } lays[] = {{1, "S"}, {2, "P"}, {3, "PS"}, {4, "PSS"}, {5, "PSP"}, {6, "PSLP"}, {7, "PSLPP"}, {9, "PS"}, {10, "PP"}, {12, "PSLPP"}, {14, "PSLPP"}, {16, "PSLPPP"}, {19, "PSLPPPP"}};
  static const int targets[] = {0, 2, 6, 19};
  /* channels */
  for (unsigned l = 0; l < sizeof lays / sizeof *lays; l++)
    for (int t = 0; t < 4; t++)
      for (int info = 0; info < 3; info++)
        if (vf_case("channels of layout %d for layout %d, group info %d", lays[l].cicp, targets[t], info))
        {
          fresh();
          S.ng = 1, S.kind[0] = CH, S.cicp = lays[l].cicp, S.els = lays[l].els, S.target = targets[t];
          S.info = info > 0, S.prio[0] = info + 3, S.fixed[0] = info & 1;
          check("channels");
        }
  for (int n = 1; n <= 6; n++)
    if (vf_case("channels listed: %d", n))
    {
      static const char *els[] = {"S", "SS", "SSS", "SSSL", "SSSLS", "PSLP"};
      fresh();
      S.ng = 1, S.kind[0] = CH, S.listed = 1, S.els = els[n - 1];
      check("listed channels");
    }
  for (int pr = 0; pr < 16; pr++)
    if (vf_case("channels of priority %d, fixed %d", pr >> 1, pr & 1))
    {
      fresh();
      S.ng = 1, S.kind[0] = CH, S.info = 1, S.prio[0] = pr >> 1, S.fixed[0] = pr & 1;
      S.target = pr & 4 ? 2 : 0;
      check("channels with group info");
    }
  if (vf_case("channels louder than full scale"))
  {
    fresh();
    S.ng = 1, S.kind[0] = CH, S.loud = 1;
    check("loud channels");
  }
  /* objects, scenes and mixtures in every order */
  for (int m = 1; m < 8; m++)
    for (int perm = 0; perm < 6; perm++)
      for (int t = 0; t < 3; t++)
        for (int info = 0; info < 3; info++)
        {
          if (perm > 1 && m & CH) /* the decoder wants channels first */
            continue;
          static const int P[6][3] = {{CH, OB, SC}, {CH, SC, OB}, {OB, CH, SC}, {OB, SC, CH}, {SC, CH, OB}, {SC, OB, CH}};
          fresh();
          for (int k = 0; k < 3; k++)
            if (m & P[perm][k])
              S.kind[S.ng++] = P[perm][k];
          int first = 1; /* the same order occurs for several permutations */
          for (int p2 = 0; p2 < perm && first; p2++)
          {
            int n = 0, same = 1;
            for (int k = 0; k < 3; k++)
              if (m & P[p2][k])
                same &= S.kind[n++] == P[p2][k];
            first = !same;
          }
          if (!first)
            continue;
          S.target = t == 1 ? 2 : t == 2 ? 19 : m & (OB | SC) ? 6 : 0;
          S.info = info > 0;
          for (int g = 0; g < 3; g++)
            S.prio[g] = (info == 1 ? 1 + 2 * g : 6 - 2 * g), S.fixed[g] = (g + info) & 1;
          if (vf_case("%s for layout %d, group info %d", kinds(&S), S.target, info))
            check(kinds(&S));
        }
  for (int n = 1; n <= 12; n++)
    for (int ch = 0; ch < 2; ch++)
      if (vf_case("%d objects%s", n, ch ? " beside channels" : ""))
      {
        fresh();
        S.nobj = n;
        if (ch)
          S.kind[S.ng++] = CH, S.cicp = 2, S.els = "P";
        S.kind[S.ng++] = OB;
        S.info = n & 1, S.prio[0] = 2, S.prio[1] = 5, S.fixed[1] = 1;
        S.target = 6;
        check("objects");
      }
  for (int o = 1; o <= (vf_thorough ? 6 : 4); o++)
    for (int n = 1; n <= 5; n += 2)
      if (vf_case("scene of order %d in %d signals", o, n))
      {
        fresh();
        S.kind[S.ng++] = SC;
        S.order = o, S.ntr = n > (o + 1) * (o + 1) ? 2 : n;
        S.target = 6;
        check("scene");
      }
  /* enhanced object metadata */
  for (int dc = 0; dc < 3; dc++)
    for (int xc = 0; xc < 3; xc++)
      for (int only = 0; only < 3; only++)
        for (int dv = 0; dv < 3; dv++)
          for (int near = 0; near < 2; near++)
            for (int keep = 0; keep < 8; keep++)
              if ((vf_thorough || (dc + xc + only + dv + near + keep) % 16 == 7) && vf_case("enhanced metadata: diffuseness %d sectors %d predefined %d divergence %d closest %d kept %d", dc, xc, only, dv, near, keep))
              {
                fresh();
                S.kind[S.ng++] = OB;
                S.nobj = 3;
                S.target = 6;
                S.enh = 1;
                S.alldep = keep & 1;
                S.ec.diff = dc > 0, S.ec.diff_common = dc > 1;
                S.ec.ex = xc > 0, S.ec.ex_common = xc > 1;
                S.ec.near = near ? 30 : 0;
                for (int i = 0; i < 3; i++)
                  S.ec.only[i] = only == 1 || (only == 2 && i == 1 && xc < 2), S.ec.div[i] = dv == 1 || (dv == 2 && i != 1), S.ec.range[i] = 5 + 20 * i;
                for (int f = 0; f < NF + 2; f++)
                  for (int i = 0; i < 3; i++)
                  {
                    S.ef[f].keep_diff[i] = keep >> 1 & 1 && (f + i) % 2;
                    S.ef[f].keep_div[i] = keep >> 1 & 1 && (f + i) % 3 == 1;
                    S.ef[f].keep_ex[i] = keep >> 2 & 1 && (f + i) % 2 == (keep & 1);
                    S.ef[f].diff[i] = (7 + f * 17 + i * 31) % 128;
                    S.ef[f].div[i] = (99 + f * 13 + i * 41) % 128;
                    sect *x = &S.ef[f].ex[i];
                    x->n = (f * 2 + i) % 4;
                    for (int q = 0; q < 15; q++)
                    {
                      x->pre[q] = (f + i + q) % 2, x->idx[q] = (f + 3 * i + 5 * q) % 16;
                      x->a0[q] = (20 + f * 9 + q * 31 + i) % 128, x->a1[q] = (80 + f * 9 + q * 31 + i) % 128;
                      x->e0[q] = (f + q * 7 + i) % 32, x->e1[q] = (17 + f + q * 7 + i) % 32;
                    }
                  }
                check("objects with enhanced metadata");
              }
  for (int v = 0; v < 128; v += vf_thorough ? NF : 64)
    if (vf_case("every diffuseness, divergence and sector from %d", v))
    {
      fresh();
      S.kind[S.ng++] = OB;
      S.nobj = 1;
      S.target = 6;
      S.enh = 1;
      S.ec.diff = 1, S.ec.ex = 1, S.ec.div[0] = 1, S.ec.range[0] = v & 63;
      for (int f = 0; f < NF + 2; f++)
      {
        int w = (v + f) & 127;
        sect *x = &S.ef[f].ex[0];
        S.ef[f].diff[0] = w, S.ef[f].div[0] = 127 - w;
        x->n = w & 15;
        for (int q = 0; q < 15; q++)
          x->pre[q] = q > 1 && q % 2, x->idx[q] = (w + q) & 15, x->a0[q] = (w + q) & 127, x->a1[q] = (127 - w + q) & 127, x->e0[q] = (w + q) & 31, x->e1[q] = (w * 3 + q) & 31;
      }
      check("every value");
    }
  return vf_finish();
}
