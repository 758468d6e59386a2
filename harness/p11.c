/* P11: loudness normalisation and dynamic range gains act on the output exactly as the metadata says.
 * Each case decodes one stream twice: once with the metadata in use and once without it, and compares every output
 * sample with the product of the plain sample and the gain the metadata stands for. */
#include "vf.h"
#include "streams.h"

static dec_t D, R;
enum { NFRQ = 8 };

typedef struct
{
  int cicp, fs_idx, nobj;
  const char *els;
  int level; /* global gain of the spectra */
  int nfr;
  int has_loud;
  ld_info li[64];
  int nli;
  ld_info al[64];
  int nal, lext;
  int before; /* other config extensions in front of the loudness one */
  int has_drc;
  dr_cfg dc;
  dr_fr fr[24][32]; /* [gain set][frame] */
  int bg[4];        /* constant gains of the bands, with one gain set of several bands */
  int gext;
} spec;
static spec S;
static void spec_init(int cicp, const char *els, int fs_idx)
{
  memset(&S, 0, sizeof(S));
  S.cicp = cicp;
  S.els = els;
  S.fs_idx = fs_idx;
  S.level = 130;
  S.nfr = NFRQ;
  S.nal = -1;
}
static int fs_of(int idx) { return idx == 3 ? 48000 : idx == 4 ? 44100 : idx == 5 ? 32000 : idx == 6 ? 24000 : 22050; }
static blob build(void)
{
  blob r;
  sb_t *s = sb_new();
  sx_layout(s, S.cicp, S.els);
  s->cfg.fs_idx = S.fs_idx;
  bw_t cb, lb, gb;
  bw_init(&cb);
  bw_init(&lb);
  int el = -1;
  int tmin = dr_tmin(fs_of(S.fs_idx));
  if (S.has_drc)
  {
    el = s->cfg.nel;
    sy_el *e = sy_add_el(&s->cfg, EL_EXT);
    e->ext_type = EXT_DRC;
    dr_put_cfg(&cb, &S.dc);
    bw_align(&cb);
    e->ext_cfg = cb.d;
    e->ext_cfg_len = bw_len(&cb);
  }
  if (S.has_loud)
  {
    ld_set(&lb, S.li, S.nli, S.al, S.nal, S.lext);
    bw_align(&lb);
    s->cfg.has_ext = 1;
    bw_init(&s->cfg.cfgext);
    bw_esc(&s->cfg.cfgext, S.before, 2, 4, 8);
    for (int i = 0; i < S.before; i++)
    {
      bw_esc(&s->cfg.cfgext, 0, 4, 8, 16); /* fill */
      bw_esc(&s->cfg.cfgext, 3 + i, 4, 8, 16);
      for (int k = 0; k < 3 + i; k++)
        bw_put(&s->cfg.cfgext, 0xA5, 8);
    }
    bw_esc(&s->cfg.cfgext, 2, 4, 8, 16);
    bw_esc(&s->cfg.cfgext, bw_len(&lb), 4, 8, 16);
    bw_bytes(&s->cfg.cfgext, lb.d, bw_len(&lb));
  }
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < S.nfr; f++)
  {
    for (int c = 0; c < s->nch; c++)
    {
      fd_ch *x = &s->ch[c];
      fd_gain(x, S.level);
      x->win = W_LONG;
      sx_fill(x, s->cfg.fs_idx, f * 37 + c * 5 + 1, 20);
    }
    if (S.has_drc && S.dc.ngs >= 0)
    {
      bw_init(&gb);
      for (int k = 0; S.dc.gs[0].nb > 1 && k < S.dc.gs[0].nb; k++)
      {
        dr_fr q = {0};
        q.g[0] = S.bg[k];
        dr_put_seq(&gb, &S.dc.gs[0], &q, tmin);
      }
      for (int g = 0; S.dc.gs[0].nb <= 1 && g < S.dc.ngs; g++)
        if (!dr_put_seq(&gb, &S.dc.gs[g], &S.fr[g][f], tmin))
          {
          fprintf(stderr, "gain sequence cannot be coded: %s\n", vf_desc);
          abort();
        }
      bw_put(&gb, S.gext > 0, 1);
      if (S.gext)
      {
        for (int i = 0; i < S.gext; i++)
        {
          bw_put(&gb, 5 + i, 4);
          bw_put(&gb, 2, 3);
          bw_put(&gb, 8 + i, 6);
          for (int k = 0; k < 9 + i; k++)
            bw_put(&gb, k & 1, 1);
        }
        bw_put(&gb, 0, 4);
      }
      bw_align(&gb);
      s->ext[el].present = 1;
      s->ext[el].n = bw_len(&gb);
      memcpy(s->ext[el].d, gb.d, s->ext[el].n);
      bw_free(&gb);
    }
    sb_frame(s, f == 0);
  }
  bw_free(&cb);
  bw_free(&lb);
  r.d = sb_take(s, &r.n);
  sb_del(s);
  return r;
}

typedef struct
{
  int cicp, effect, tgt, wd, rs, fs; /* tgt: target loudness code or -1 */
} ucfg;
static const ucfg U0 = {0, -1, -1, 32, 0, 0};
static int run(dec_t *d, blob b, const ucfg *u)
{
  dec_free(d);
  dec_defaults(d);
  d->in.ui_pcm_wd_sz = u->wd;
  if (u->cicp)
    d->in.ui_cicp_layout_idx = u->cicp;
  d->in.ui_effect = u->effect;
  if (u->rs)
  {
    d->in.enable_resamp = 1;
    d->in.out_samp_freq = u->fs;
  }
  if (u->tgt >= 0)
  {
    d->in.ui_target_loudness[0] = 1;
    d->in.ui_target_loudness[1] = u->tgt;
  }
  int e = dec_all(d, b, 0);
  dec_close(d);
  return e;
}
static double smp(const dec_t *d, int wd, long i)
{
  const unsigned char *p = (const unsigned char *)d->pcm + i * (wd / 8);
  if (wd == 32)
    return *(const int *)p;
  if (wd == 16)
    return (double)*(const short *)p;
  return (double)((int)((unsigned)p[0] << 8 | (unsigned)p[1] << 16 | (unsigned)p[2] << 24) >> 8);
}
static void hash_out(const dec_t *d)
{
  uint64_t h = 1469598103934665603ull;
  for (long i = 0; i < d->npcm; i += 97)
    h = (h ^ d->pcm[i]) * 1099511628211ull;
  vf_outcome(h);
}
/* every output sample is the plain one times gain */
static int flat(const char *sig, const dec_t *r, const dec_t *d, int wd, double db)
{
  if (r->npcm != d->npcm || r->out.i_num_chan != d->out.i_num_chan || r->npcm < 4096)
  {
    vf_fail(sig, "%ld bytes of %d channels against %ld of %d without the metadata", d->npcm, d->out.i_num_chan, r->npcm,
            r->out.i_num_chan);
    return 0;
  }
  double g = pow(10, db / 20), full = wd == 32 ? 2147483648.0 : wd == 24 ? 8388608.0 : 32768.0;
  long n = r->npcm / (wd / 8);
  long used = 0;
  for (long i = 0; i < n; i++)
  {
    double x = smp(r, wd, i), y = smp(d, wd, i);
    if (fabs(x) >= full - 2)
      continue;
    double e = g * x;
    if (fabs(x) > 1)
      used++;
    if (e > full - 1)
      e = full - 1;
    if (e < -full)
      e = -full;
    if (fabs(y - e) > 4e-6 * fabs(e) + 1.5 * (1 + g) + (wd == 32 ? 64 * g : 0))
    {
      vf_fail(sig, "channel %ld sample %ld: %.9g, expected %.9g = %.9g by %.4f dB (seen %.4f dB)", i % r->out.i_num_chan,
              i / r->out.i_num_chan, y, e, x, db, 20 * log10(fabs(y / x)));
      return 0;
    }
  }
  if (used < n / 50)
  {
    vf_fail("silent", "only %ld of %ld samples carry signal", used, n);
    return 0;
  }
  vf_trans += used;
  hash_out(d);
  return 1;
}
/* ---- A: loudness ---- */
static dec_t RC[2]; /* plain renderings at the two levels, made once per process */
static int rc_ok[2];
static dec_t *ref_of(int slot, const ucfg *u)
{
  if (!rc_ok[slot])
  {
    ucfg q = *u;
    q.tgt = -1;
    q.effect = -1;
    blob b = build();
    int e = run(&RC[slot], b, &q);
    if (e)
      vf_fail("reference", "plain decoding failed: %x", e);
    rc_ok[slot] = 1;
    free(b.d);
  }
  return &RC[slot];
}
static void base(int lo)
{
  spec_init(2, "P", 4);
  S.has_loud = 1;
  S.nli = 1;
  S.li[0] = (ld_info){0, 0, 0, 0, -1, -1, 1, {{1, 100, 2, 3}}};
  S.has_drc = 1;
  S.dc.nch = 2;
  S.dc.ngs = -1;
  S.level = lo ? 118 : 150;
}
static double L_of(int v) { return v * 0.25 - 57.75; }
/* the interface takes whole decibels, in quarters */
static double T_of(int t) { return -(t >> 2); }
/* decode the stream of the spec with a target, compare with the same spectra without; level chosen by the gain */
static void loud_case(const char *sig, int tgt, double L, int none)
{
  double db = none ? 0 : T_of(tgt) - L;
  int lo = db > 6;
  spec keep = S;
  base(lo);
  ucfg u = U0;
  dec_t *r = ref_of(lo, &u);
  int lv = S.level;
  S = keep;
  S.level = lv;
  blob b = build();
  u.tgt = tgt;
  int e = run(&D, b, &u);
  if (e)
    vf_fail(sig, "decoding with target loudness %d failed: %x", tgt, e);
  else if (flat(sig, r, &D, 32, db))
    vf_nontriv++;
  free(b.d);
}
static void loudness_values(void)
{
  int step = vf_thorough ? 1 : 0;
  for (int m = 1; m <= 2; m++)
    for (int v = 0; v < 256; v++)
      for (int t = 0; t <= 252; t++)
      {
        if (!step && !(t == 96 || (m == 1 && v == 100) || (m == 1 && (v == 0 || v == 255 || v == 231) && t % 28 == 0)))
          continue;
        if (step && m == 2 && v % 5)
          continue;
        if (!vf_case("loudness method %d value %d, target %d", m, v, t))
          continue;
        base(0);
        S.li[0].m[0].method = m;
        S.li[0].m[0].value = v;
        loud_case("loudness", t, L_of(v), 0);
      }
}
/* which measurement is the one that counts */
static const int sysrank[16] = {0, 0, 8, 0, 1, 3, 0, 5, 6, 7, 4, 2, -1, -1, -1, -1};
static void loudness_choice(void)
{
  const int T = 80;
  /* measurements of one information block: all ordered pairs of systems */
  for (int a = 0; a < 12; a++)
    for (int c = 0; c < 12; c++)
      for (int m = 0; m < 4; m++)
      {
        if (sysrank[a] == sysrank[c] && a != c && m != 1 && m != 2)
          continue;
        if (!vf_thorough && m && (a * 12 + c) % 5)
          continue;
        int ma = m == 0 ? 1 : m == 1 ? 1 : m == 2 ? 2 : 2, mc = m == 0 ? 1 : m == 1 ? 2 : m == 2 ? 1 : 2;
        if (ma == mc && a == c)
          continue;
        if (!vf_case("measurements of methods %d and %d in systems %d and %d", ma, mc, a, c))
          continue;
        base(0);
        S.li[0].n = 2;
        S.li[0].m[0] = (ld_meas){ma, 100, a, 1};
        S.li[0].m[1] = (ld_meas){mc, 140, c, 3};
        int pick = ma != mc ? (ma == 1 ? 100 : 140) : sysrank[a] > sysrank[c] ? 100 : 140;
        loud_case("measurement", T, L_of(pick), 0);
      }
  /* other methods beside it, in front and behind, all of them */
  for (int k = 0; k <= 9; k++)
    for (int n = 1; n <= 14; n++)
      for (int pos = 0; pos < 2; pos++)
      {
        if (k == 1 || k == 2)
          continue;
        if (!vf_thorough && n > 3 && n != 7 && n != 14)
          continue;
        if (!vf_case("%d measurements of method %d %s the programme loudness", n, k, pos ? "after" : "before"))
          continue;
        base(0);
        S.li[0].n = n + 1;
        for (int i = 0; i <= n; i++)
          S.li[0].m[i] = (ld_meas){k, 3, 2, 3};
        S.li[0].m[pos ? 0 : n] = (ld_meas){1, 120, 2, 3};
        loud_case("methods", T, L_of(120), 0);
      }
  /* information blocks: one that describes this rendering among others that do not */
  static const ld_info other[] = {
    {0, 0, 5, 0, -1, -1, 1, {{1, 60, 2, 3}}},   /* another gain set */
    {0, 0, 0, 9, -1, -1, 1, {{1, 61, 2, 3}}},   /* another downmix */
    {0, 0, 0, 0, 900, 905, 1, {{4, 62, 2, 3}}}, /* no loudness, only another measure */
    {1, 3, 0, 0, -1, -1, 1, {{1, 63, 2, 3}}},   /* a group of the scene */
    {2, 4, 0, 0, -1, -1, 1, {{1, 64, 2, 3}}},
    {3, 2, 0, 0, -1, -1, 1, {{1, 65, 2, 3}}},   /* a preset of the scene */
    {0, 0, 63, 0, -1, -1, 1, {{1, 66, 2, 3}}},  /* any gain set: less specific */
    {0, 0, 0, 127, -1, -1, 1, {{1, 67, 2, 3}}}, /* any downmix: less specific */
    {0, 0, 0, 0, 700, -1, 0, {{0}}},            /* empty */
  };
  const int no = sizeof(other) / sizeof(*other);
  for (int a = 0; a < no; a++)
    for (int c = 0; c < no; c++)
      for (int pos = 0; pos < 3; pos++)
        for (int v = 0; v < 3; v++)
        {
          if (!vf_thorough && v != (a + c + pos) % 3)
            continue;
          if (!vf_case("information %d and %d around the one that applies, at place %d, variant %d", a, c, pos, v))
            continue;
          base(0);
          S.nli = 3;
          ld_info me = {0, 0, 0, 0, v == 1 ? 1000 : -1, v == 2 ? 2000 : -1, 1, {{1, 90 + 7 * v, 2, 3}}};
          int k = 0;
          for (int i = 0; i < 3; i++)
            S.li[i] = i == pos ? me : k++ ? other[c] : other[a];
          loud_case("information", T, L_of(90 + 7 * v), 0);
        }
  /* fall back on the less specific ones */
  static const int fb[][2] = {{0, 127}, {63, 0}, {63, 127}, {0, 0}};
  for (int a = 0; a < 4; a++)
    for (int c = 0; c < 4; c++)
      for (int e = 0; e < 2; e++)
      {
        if (a == c || !vf_case("gain set %d downmix %d after gain set %d downmix %d%s", fb[a][0], fb[a][1], fb[c][0], fb[c][1], e ? " with an extension" : ""))
          continue;
        base(0);
        S.nli = 2;
        S.lext = e;
        S.li[0] = (ld_info){0, 0, fb[c][0], fb[c][1], -1, -1, 1, {{1, 70, 2, 3}}};
        S.li[1] = (ld_info){0, 0, fb[a][0], fb[a][1], -1, -1, 1, {{1, 130, 2, 3}}};
        /* order of preference: exact, any downmix, any gain set, any of both */
        static const int pr[4] = {1, 2, 3, 0};
        loud_case("fallback", T, L_of(pr[a] < pr[c] ? 130 : 70), 0);
      }
  /* album loudness is not what a single programme is normalised by */
  for (int n = 0; n <= 4; n++)
    for (int k = 0; k <= 2; k++)
      for (int x = 0; x <= 1; x++)
      {
        if (!vf_case("%d album blocks, %d blocks before it, %d extensions", n, k, x))
          continue;
        base(0);
        S.nal = n;
        S.before = k;
        S.lext = x;
        for (int i = 0; i < n; i++)
          S.al[i] = (ld_info){0, 0, 0, 0, i & 1 ? 500 : -1, i & 2 ? 600 : -1, 2, {{1, 20 + i, 2, 3}, {3, 77, 1, 1}}};
        S.li[0].m[0].value = 111;
        loud_case("album", T, L_of(111), 0);
      }
  /* album blocks beside blocks of groups and presets of a scene, which stay what they are */
  for (int n = 1; n <= 4; n++)
    for (int ty = 1; ty <= 3; ty++)
      for (int pos = 0; pos < 4; pos++)
      {
        if (!vf_case("%d album blocks, block of type %d at place %d", n, ty, pos))
          continue;
        base(0);
        S.nal = n;
        for (int i = 0; i < n; i++)
          S.al[i] = (ld_info){0, 0, 0, 0, -1, -1, 1, {{1, 25 + i, 2, 3}}};
        S.nli = 4;
        for (int i = 0; i < 4; i++)
          S.li[i] = (ld_info){0, 0, 0, 0, -1, -1, 1, {{1, 122, 2, 3}}};
        for (int i = 0; i < 4; i++)
          if (i == pos)
            S.li[i].type = ty, S.li[i].id = 3, S.li[i].m[0].value = 180;
        loud_case("album", T, L_of(122), 0);
      }
  /* many blocks, up to what the field counts */
  for (int n = 1; n <= 63; n++)
    for (int at = 0; at < 3; at++)
    {
      if (!vf_thorough && n > 4 && n % 10 != 3)
        continue;
      if (!vf_case("%d information blocks, the one that applies at place %d of 3", n, at))
        continue;
      base(0);
      S.nli = n;
      for (int i = 0; i < n; i++)
        S.li[i] = (ld_info){0, 0, 1 + i % 30, 0, -1, -1, 1, {{1, 10 + i, 2, 3}}};
      int p = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
      S.li[p].drc_set = 0;
      S.li[p].m[0].value = 99;
      loud_case("many", T, L_of(99), 0);
    }
  /* nothing to go by: nothing changes */
  for (int k = 0; k < 5; k++)
    for (int t = 0; t <= 252; t += vf_thorough && k != 4 ? 4 : 42)
    {
      if (!vf_case("no programme loudness, form %d, target %d", k, t))
        continue;
      base(0);
      if (k == 0)
        S.has_loud = 0;
      if (k == 1)
        S.nli = 0;
      if (k == 2)
        S.li[0].m[0].method = 4;
      if (k == 3)
        S.li[0].n = 0;
      if (k == 4)
        S.has_drc = 0;
      double L = L_of(100);
      loud_case(k == 4 ? "no-element" : "unnormalised", t, L, k != 4);
    }
}
/* every form of output gets the same gain */
static const ucfg outs[] = {{2, -1, -1, 16, 0, 0}, {2, -1, -1, 24, 0, 0}, {0, -1, -1, 24, 0, 0}, {6, -1, -1, 32, 0, 0}, {1, -1, -1, 32, 0, 0},
                            {19, -1, -1, 32, 0, 0}};
static void loudness_outputs(void)
{
  static const struct
  {
    int cicp;
    const char *els;
    int fs;
  } in[] = {{2, "P", 4}, {2, "P", 3}, {2, "P", 6}, {6, "PSLP", 3}, {6, "PSLP", 5}, {1, "S", 3}, {19, "PSLPPPPP", 3}};
  for (int k = 0; k < 7; k++)
    for (int o = 0; o < 7; o++)
      for (int rs = 0; rs < 2; rs++)
        for (int v = 0; v < 4; v++)
          for (int x = 0; x < 2; x++)
          {
            static const int tg[] = {64, 96, 124, 160};
            if (rs && in[k].fs == 3)
              continue;
            if (!vf_thorough && v != (k + o) % 4)
              continue;
            if (k == 6 && !vf_thorough && o > 2)
              continue;
            if (!x)
              continue;
            if (!vf_case("layout %d at %d Hz, output form %d%s, target %d%s", in[k].cicp, fs_of(in[k].fs), o, rs ? " resampled" : "", tg[v], x ? ", gain control element" : ""))
              continue;
            spec_init(in[k].cicp, in[k].els, in[k].fs);
            S.has_loud = 1;
            S.nli = 1;
            S.li[0] = (ld_info){0, 0, 0, 0, -1, -1, 1, {{1, 107, 2, 3}}};
            S.has_drc = x;
            S.dc.ngs = -1;
            S.dc.nch = strlen(in[k].els) * 2;
            for (const char *p = in[k].els; *p; p++)
              S.dc.nch -= *p != 'P';
            S.level = 120;
            ucfg u = o < 6 ? outs[o] : U0;
            u.rs = rs;
            u.fs = in[k].fs == 4 ? 44100 : 48000;
            if (rs && in[k].fs == 4)
              u.fs = 48000;
            blob b = build();
            int er = run(&R, b, &u);
            u.tgt = tg[v];
            int ed = run(&D, b, &u);
            vf_sample("err %x %x", er, ed);
            if (er || ed)
            {
              if (er != ed)
                vf_fail("output", "plain decoding ends with %x, with a target loudness %x", er, ed);
              else
                vf_count("refused", 1);
            }
            else if (flat("output", &R, &D, u.wd, T_of(tg[v]) - L_of(107)))
              vf_nontriv++;
            free(b.d);
          }
}
/* ---- B: gains over time ---- */
static dr_curve CV[24];
static int drc_to, drc_toch; /* rendered to a layout, of so many channels */
/* the output with the metadata in use against the plain one */
static void drc_cmp(const char *sig, int sel, double ln_db, long delay)
{
  int tmin = dr_tmin(fs_of(S.fs_idx)), nch = R.out.i_num_chan, gg[32], oc[32];
  const dr_in *in = &S.dc.in[sel];
  int duck = -1, fade = -1;
  for (int k = 0; k < S.dc.ni; k++)
  {
    if (S.dc.in[k].effect & 0xC00)
      duck = k;
    if (k != sel && (S.dc.in[k].effect & 0x200))
      fade = k;
  }
  for (int k = 0; k < 32; k++)
    oc[k] = -1;
  dr_groups(in, gg, oc);
  if (R.npcm != D.npcm || D.out.i_num_chan != nch || nch != (drc_to ? drc_toch : in->nch) || R.npcm < 4096)
  {
    vf_fail(sig, "%ld bytes of %d channels against %ld of %d without the metadata", D.npcm, D.out.i_num_chan, R.npcm, nch);
    return;
  }
  for (int g = 0; g < S.dc.ngs; g++)
  {
    dr_curve_init(&CV[g], tmin, S.dc.gs[g].align);
    for (int f = 0; f < S.nfr; f++)
      dr_curve_frame(&CV[g], &S.dc.gs[g], &S.fr[g][f], f, tmin);
  }
  long n = R.npcm / 4 / nch;
  for (int c = 0; c < nch; c++)
  {
    long used = 0;
    for (long i = 0; i < n; i++)
    {
      double x = ((int *)R.pcm)[i * nch + c], y = ((int *)D.pcm)[i * nch + c];
      double g = pow(10, ln_db / 20);
      if (oc[c] >= 0)
        g *= dr_at(&CV[gg[oc[c]]], in, oc[c], ln_db, i - delay);
      if (duck >= 0)
        g *= dr_duck(CV, &S.dc.in[duck], c, i - delay);
      else if (fade >= 0)
        g *= dr_at(&CV[S.dc.in[fade].gs[0] - 1], &S.dc.in[fade], 0, ln_db, i - delay);
      double e = g * x;
      used += fabs(x) > 1e4;
      if (fabs(e) > 2.1e9)
        continue;
      if (fabs(y - e) > 6e-5 * fabs(e) + 4 + 200 * g)
      {
        vf_fail(sig, "channel %d sample %ld: %.9g, expected %.9g (%.3f dB), seen %.3f dB", c, i, y, e, 20 * log10(g), 20 * log10(fabs(y / x)));
        return;
      }
    }
    if (used < n / 4 && !(drc_to && c >= 2))
    {
      vf_fail("silent", "channel %d carries signal in only %ld of %ld samples", c, used, n);
      return;
    }
    vf_trans += used;
  }
  hash_out(&D);
  vf_nontriv++;
}
static void drc_go(const char *sig, int sel, int effect, int tgt, double ln_db)
{
  ucfg u = U0;
  u.cicp = drc_to;
  blob b = build();
  int er = run(&R, b, &u);
  u.effect = effect;
  u.tgt = tgt;
  int ed = run(&D, b, &u);
  if (er || ed)
    vf_fail(sig, "decoding ends with %x, with the metadata in use %x", er, ed);
  else
    drc_cmp(sig, sel, ln_db, 1024);
  free(b.d);
}
static void drc_base(int prof)
{
  spec_init(2, "P", 4);
  S.level = 150;
  S.has_drc = 1;
  S.dc.nch = 2;
  S.dc.ngs = 1;
  S.dc.gs[0].prof = prof;
  S.dc.ni = 1;
  dr_in_init(&S.dc.in[0], 1, 1, 2);
  S.dc.in[0].gs[0] = S.dc.in[0].gs[1] = 1;
}
static void drc_values(void)
{
  for (int prof = 0; prof < 3; prof++)
  {
    int lo = prof == 0 ? -255 : prof == 1 ? -1024 : -256, hi = prof == 0 ? 255 : 0;
    for (int at = lo; at <= hi; at += 15)
    {
      if (!vf_thorough && prof == 1 && (at - lo) % 45)
        continue;
      if (!vf_case("gains of profile %d from %d/8 dB on, one for a frame", prof, at))
        continue;
      drc_base(prof);
      S.nfr = 18;
      for (int f = 0; f < 18; f++)
        S.fr[0][f].g[0] = f == 0 || f == 16 ? 0 : at + f - 1 > hi ? hi : at + f - 1;
      if (hi > 0 && at > 0)
        S.level = 130;
      drc_go("value", 0, 1, 96, 0);
    }
  }
  /* every change of gain the code knows, from every start that leaves room */
  for (int prof = 0; prof < 3; prof++)
  {
    int n;
    const dr_code *t = dr_tab(prof, &n);
    for (int k = 0; k < n; k++)
    {
      if (!vf_case("change of %d/8 dB in profile %d", t[k].val, prof))
        continue;
      drc_base(prof);
      S.nfr = 10;
      for (int f = 0; f < 10; f++)
      {
        dr_fr *r = &S.fr[0][f];
        r->mode = 1;
        r->n = 2 + f % 3;
        r->g[0] = prof == 0 ? 8 * (f - 5) : -100;
        for (int i = 1; i < r->n; i++)
          r->g[i] = r->g[i - 1] + (i == 2 && prof != 2 ? 1 : i == 2 ? -1 : t[k].val);
        for (int i = 0; i < r->n; i++)
          r->t[i] = 5 + 7 * i;
      }
      drc_go("change", 0, 1, 96, 0);
    }
  }
}
static void drc_times(void)
{
  static const int fsx[] = {4, 3, 5};
  for (int q = 0; q < 3; q++)
  {
    int fs = fsx[q];
    int tmin = dr_tmin(fs_of(fs)), nmax = 1024 / tmin;
    for (int d = 1; d <= nmax; d++)
      for (int n = 1; n <= 3; n++)
        for (int fe = 0; fe < 3; fe++)
          for (int al = 0; al < 2; al++)
          {
            int last = (n - (fe ? 1 : 0)) * d;
            if (last > nmax - 1 || (!vf_thorough && (al ? (d + n + fe) % 3 : 0)) || (!vf_thorough && fs != 4 && (d + n + fe + al) % 5))
              continue;
            if (!vf_case("%d Hz, %d nodes %d steps apart%s%s", fs_of(fs), n, d, fe == 2 ? " full frame" : fe ? " to the frame end" : "", al ? " aligned" : ""))
              continue;
            drc_base(0);
            S.fs_idx = fs;
            S.nfr = 8;
            S.dc.gs[0].full = fe == 2;
            S.dc.gs[0].align = al;
            for (int f = 0; f < S.nfr; f++)
            {
              dr_fr *r = &S.fr[0][f];
              r->mode = f != 5;
              r->n = r->mode ? n : 1;
              r->frame_end = fe == 1;
              for (int i = 0; i < n; i++)
              {
                r->t[i] = (i + 1) * d;
                r->g[i] = i == 0 ? (f % 3 - 1) * 24 : r->g[i - 1] + (i & 1 ? -8 : 5) * (f & 1 ? 1 : 1);
              }
            }
            drc_go("time", 0, 1, 96, 0);
          }
    /* as many nodes as fit */
    for (int n = 1; n <= nmax; n++)
      for (int fe = 0; fe < 3; fe++)
      {
        if ((!vf_thorough && fs != 4 && n % 4) || (!vf_thorough && n % 3 != fe))
          continue;
        if (!vf_case("%d Hz, %d nodes in a row%s", fs_of(fs), n, fe == 2 ? " full frame" : fe ? " to the frame end" : ""))
          continue;
        drc_base(0);
        S.fs_idx = fs;
        S.dc.gs[0].full = fe == 2;
        for (int f = 0; f < S.nfr; f++)
        {
          dr_fr *r = &S.fr[0][f];
          r->mode = 1;
          r->n = n;
          r->frame_end = fe == 1;
          for (int i = 0; i < n; i++)
          {
            r->t[i] = i + 1 + (f & 1 ? nmax - n : 0);
            r->g[i] = i == 0 ? f * 3 : r->g[i - 1] + (i % 4 < 2 ? 3 : -3);
          }
          if (fe && (f & 1) && n > 1)
            for (int i = 0; i < n; i++)
              r->t[i] = i + 1;
        }
        drc_go("row", 0, 1, 96, 0);
      }
  }
}
/* several bands: with constant gains the output is the sum of the bands, each by its own gain */
static dec_t BND[3];
static void drc_bands(void)
{
  for (int nb = 2; nb <= 4; nb++)
    for (int x = 0; x < 16 - (nb - 2); x++)
      for (int v = 0; v < 4; v++)
      {
        static const int pat[4][4] = {{0, 8, -16, 24}, {24, 0, 0, -8}, {-40, 16, 8, 0}, {8, 8, 8, 8}};
        if (!vf_thorough && v != (x + nb) % 4)
          continue;
        if (!vf_case("%d bands from crossover %d on, gains %d", nb, x, v))
          continue;
        drc_base(0);
        S.dc.in[0].gs[1] = v & 1 ? 0 : 1;
        S.dc.gs[0].nb = nb;
        for (int k = 0; k < nb - 1; k++)
          S.dc.gs[0].xover[k] = x + k;
        ucfg u = U0;
        u.effect = 1;
        u.tgt = 96;
        blob b;
        int e = 0;
        /* the response to band k alone follows from two renderings: all at 0 dB, and k at +6 (twice) */
        b = build();
        e |= run(&R, b, &u);
        free(b.d);
        long n = R.npcm / 4;
        double *sum = (double *)calloc(n + 1, sizeof(double));
        double *low = (double *)calloc(n + 1, sizeof(double));
        for (int k = 0; k < nb && !e; k++)
        {
          memset(S.bg, 0, sizeof(S.bg));
          S.bg[k] = 48;
          b = build();
          e |= run(&BND[0], b, &u);
          free(b.d);
          if (BND[0].npcm != R.npcm)
            e = 1;
          for (long i = 0; !e && i < n; i++)
          {
            double d = (double)((int *)BND[0].pcm)[i] - ((int *)R.pcm)[i];
            sum[i] += d * (pow(2, pat[v][k] / 48.0) - 1);
            low[i] += d;
          }
        }
        memcpy(S.bg, pat[v], sizeof(S.bg));
        b = build();
        e |= run(&D, b, &u);
        free(b.d);
        if (e || D.npcm != R.npcm)
          vf_fail("bands", "decoding ends with %x", e);
        else
        {
          long from = 3 * 1024 * 2; /* the gains have settled */
          double m = 0;
          for (long i = from; i < n; i++)
            if (fabs((double)((int *)R.pcm)[i]) > m)
              m = fabs((double)((int *)R.pcm)[i]);
          for (long i = from; i < n; i++)
          {
            double r = ((int *)R.pcm)[i], y = ((int *)D.pcm)[i];
            int on = (i & 1) == 0 || S.dc.in[0].gs[1];
            if (fabs(y - (r + (on ? sum[i] : 0))) > 1e-5 * m || (on && fabs(low[i] - r) > 1e-5 * m) || (!on && y != r))
            {
              vf_fail("bands", "channel %ld sample %ld: %.9g, the bands by their gains add up to %.9g (bands alone %.9g of %.9g)", i & 1, i / 2, y, r + sum[i],
                      low[i], r);
              break;
            }
          }
          vf_trans += n;
          vf_nontriv++;
          hash_out(&D);
        }
        free(sum);
        free(low);
      }
}
static void drc_channels(void)
{
  /* which channels: every assignment of three sets to the channels of a 5.1 layout, both ways of writing it */
  for (int a = 0; a < 729; a++)
    for (int rep = 0; rep < 2; rep++)
    {
      if (!vf_thorough && (a * 2 + rep) % 13)
        continue;
      if (!vf_case("assignment %d of gain sets to six channels%s", a, rep ? ", runs" : ""))
        continue;
      spec_init(6, "PSLP", 4);
      S.level = 150;
      S.has_drc = 1;
      S.dc.nch = 6;
      S.dc.ngs = 2;
      S.dc.gs[0].prof = 0;
      S.dc.gs[1].prof = 2;
      S.dc.ni = 1;
      dr_in_init(&S.dc.in[0], 1, 1, 6);
      S.dc.in[0].repeat = rep;
      for (int c = 0, v = a; c < 6; c++, v /= 3)
        S.dc.in[0].gs[c] = v % 3;
      for (int f = 0; f < S.nfr; f++)
      {
        S.fr[0][f].g[0] = 20 * (f & 3);
        S.fr[1][f].g[0] = -30 * (f % 3);
      }
      drc_go("channels", 0, 1, 96, 0);
    }
  /* every number of gain sets, each of its own profile, with and without extensions */
  for (int n = 1; n <= 6; n++)
    for (int p = 0; p < 3; p++)
      for (int x = 0; x <= 1; x++)
      {
        if (!vf_thorough && (n + p + x) % 2)
          continue;
        if (!vf_case("%d gain sets, profiles from %d, %d extensions", n, p, x))
          continue;
        spec_init(6, "PSLP", 4);
        S.level = 150;
        S.has_drc = 1;
        S.dc.nch = 6;
        S.dc.ngs = n;
        S.dc.ext = x;
        S.gext = x;
        S.dc.ni = 1;
        dr_in_init(&S.dc.in[0], 1, 1, 6);
        for (int c = 0; c < 6; c++)
          S.dc.in[0].gs[c] = 1 + (c + p) % n;
        for (int g = 0; g < n; g++)
        {
          S.dc.gs[g].prof = (g + p) % 3;
          for (int f = 0; f < S.nfr; f++)
          {
            dr_fr *r = &S.fr[g][f];
            r->mode = (g + f) & 1;
            r->n = 1 + (g + f) % 4;
            r->g[0] = -8 * ((f + g) % 5) - g;
            for (int i = 0; i < r->n; i++)
            {
              r->t[i] = 3 + i * (g + 2);
              if (i)
                r->g[i] = r->g[i - 1] - 1;
            }
          }
        }
        drc_go("sets", 0, 1, 96, 0);
      }
}
static void drc_modifiers(void)
{
  for (int sc = -1; sc < 256; sc++)
  {
    if (!vf_thorough && sc >= 0 && sc % 17 && sc % 7)
      continue;
    if (!vf_case("gain scaling %d", sc))
      continue;
    drc_base(0);
    S.dc.in[0].scal[0] = sc;
    for (int f = 0; f < S.nfr; f++)
      S.fr[0][f].g[0] = (f & 1 ? 1 : -1) * 11 * (1 + f / 2);
    drc_go("scaling", 0, 1, 96, 0);
  }
  for (int of = 0; of < 64; of++)
  {
    if (!vf_case("gain offset %d", of))
      continue;
    drc_base(0);
    S.dc.in[0].off[0] = of;
    S.dc.in[0].scal[0] = of % 3 == 2 ? 0x84 : -1;
    for (int f = 0; f < S.nfr; f++)
      S.fr[0][f].g[0] = (f & 1 ? 1 : -1) * 9 * (f / 2);
    drc_go("offset", 0, 1, 96, 0);
  }
  for (int a = 0; a < 16; a++)
    for (int c = 0; c < 16; c++)
    {
      if (!vf_thorough && (a + 3 * c) % 7)
        continue;
      if (!vf_case("modifiers %d and %d of two channel groups", a, c))
        continue;
      drc_base(0);
      S.dc.ngs = 2;
      S.dc.in[0].gs[1] = 2;
      S.dc.in[0].scal[0] = a & 1 ? 0x40 + a : -1;
      S.dc.in[0].off[0] = a & 2 ? a : -1;
      S.dc.in[0].scal[1] = c & 1 ? 0x2C + c : -1;
      S.dc.in[0].off[1] = c & 2 ? 32 + c : -1;
      for (int f = 0; f < S.nfr; f++)
      {
        S.fr[0][f].g[0] = (f & 1 ? 1 : -1) * 9 * (f / 2);
        S.fr[1][f].g[0] = (f & 1 ? -1 : 1) * 7 * (f / 2);
      }
      drc_go("groups", 0, 1, 96, 0);
    }
}
static void drc_selection(void)
{
  /* the requested effect is the one whose gains are used */
  for (int a = 0; a < 6; a++)
    for (int c = 0; c < 6; c++)
      for (int u = 1; u <= 6; u++)
        for (int ord = 0; ord < 2; ord++)
        {
          if (a == c || (u - 1 != a && u - 1 != c) || (!vf_thorough && ord != (a + u) % 2))
            continue;
          if (!vf_case("gain sets for effects %d and %d, effect %d asked for, order %d", a + 1, c + 1, u, ord))
            continue;
          drc_base(0);
          S.dc.ngs = 2;
          S.dc.ni = 2;
          dr_in_init(&S.dc.in[0], ord ? 7 : 2, 1 << a, 2);
          dr_in_init(&S.dc.in[1], ord ? 3 : 9, 1 << c, 2);
          S.dc.in[0].gs[0] = 1;
          S.dc.in[0].gs[1] = ord ? 1 : 0;
          S.dc.in[1].gs[0] = ord ? 2 : 0;
          S.dc.in[1].gs[1] = 2;
          for (int f = 0; f < S.nfr; f++)
          {
            S.fr[0][f].g[0] = 20 * (f & 3);
            S.fr[1][f].g[0] = -30 * (f % 3);
          }
          drc_go("effect", u - 1 == a ? 0 : 1, u, 96, 0);
        }
  /* loudness and gains together: the programme loudness with the chosen set decides */
  for (int a = 0; a < 6; a++)
    for (int t = 64; t <= 128; t += vf_thorough ? 4 : 16)
      for (int k = 0; k < 6; k++)
      {
        if (!vf_case("effect %d with target loudness %d, loudness given in form %d", a + 1, t, k))
          continue;
        drc_base(0);
        S.level = 140;
        dr_in_init(&S.dc.in[0], 4, 1 << a, 2);
        S.dc.in[0].gs[0] = 1;
        S.dc.ni = 1;
        int pick = 0;
        if (k >= 3)
        {
          S.dc.ni = 2;
          S.dc.ngs = 2;
          int o = k == 4;
          dr_in x = S.dc.in[0];
          dr_in_init(&S.dc.in[o ? 0 : 1], o ? 2 : 6, 1 << ((a + 1) % 6), 2);
          S.dc.in[o ? 0 : 1].gs[1] = 2;
          if (o)
            S.dc.in[1] = x;
          pick = o;
        }
        for (int f = 0; f < S.nfr; f++)
        {
          S.fr[0][f].g[0] = 10 * (f & 3);
          S.fr[1][f].g[0] = -30 * (f % 3);
        }
        S.has_loud = 1;
        int v = 120, neg = T_of(t) < L_of(v);
        if ((T_of(t) < L_of(116)) != neg || (T_of(t) < L_of(124)) != neg)
          continue; /* then the peak level, not the effect, would decide */
        S.nli = 1;
        if (k == 0)
          S.li[0] = (ld_info){0, 0, 4, 0, -1, -1, 1, {{1, v, 2, 3}}};
        else if (k == 1)
          S.li[0] = (ld_info){0, 0, 63, 0, -1, -1, 1, {{1, v, 2, 3}}};
        else if (k == 2)
          S.li[0] = (ld_info){0, 0, 0, 0, -1, -1, 1, {{1, v, 2, 3}}};
        else
        {
          S.nli = 3;
          S.li[0] = (ld_info){0, 0, 0, 0, -1, -1, 1, {{1, 116, 2, 3}}};
          S.li[1] = (ld_info){0, 0, 4, 0, -1, -1, 1, {{1, v, 2, 3}}};
          S.li[2] = (ld_info){0, 0, k == 4 ? 2 : 6, 0, -1, -1, 1, {{1, 124, 2, 3}}};
          if (k == 5)
          {
            ld_info w = S.li[2];
            S.li[2] = S.li[0];
            S.li[0] = w;
          }
        }
        drc_go("joint", pick, a + 1, t, T_of(t) - L_of(v));
      }
}
static void drc_ducking(void)
{
  /* beside the chosen set: the channels lower themselves, or the others */
  for (int oth = 0; oth < 2; oth++)
    for (int a = 0; a < 81; a++)
      for (int sc = -1; sc < 16; sc++)
        for (int ord = 0; ord < 2; ord++)
        {
          int some = 0, none = 0;
          for (int c = 0, v = a; c < 4; c++, v /= 3)
            some |= v % 3 != 0, none |= v % 3 == 0;
          if (!some || (oth && !none) || (!vf_thorough && (a * 17 + sc * 3 + ord * 5 + oth) % 23))
            continue;
          if (oth)
          {
            int bad = 0;
            for (int c = 0, v = a; c < 4; c++, v /= 3)
              bad |= v % 3 == 2;
            if (bad)
              continue; /* one sequence lowers the others */
          }
          if (!vf_case("ducking of %s, assignment %d, scaling %d, order %d", oth ? "others" : "self", a, sc, ord))
            continue;
          spec_init(6, "PSLP", 4);
          S.level = 150;
          S.has_drc = 1;
          S.dc.nch = 6;
          S.dc.ngs = 3;
          S.dc.gs[0].prof = 0;
          S.dc.gs[1].prof = S.dc.gs[2].prof = 2;
          S.dc.ni = 2;
          dr_in *m = &S.dc.in[ord], *d = &S.dc.in[!ord];
          dr_in_init(m, 1, 1, 6);
          dr_in_init(d, 2, oth ? 0x400 : 0x800, 6);
          d->repeat = a & 1;
          for (int c = 0; c < 6; c++)
            m->gs[c] = c % 2;
          for (int c = 0, v = a; c < 4; c++, v /= 3)
          {
            d->gs[c] = v % 3 ? v % 3 + 1 : 0;
            d->dsc[c] = sc;
          }
          d->gs[4] = d->gs[0];
          d->dsc[4] = d->dsc[0];
          d->gs[5] = d->gs[3];
          d->dsc[5] = a % 3 == 0 ? 4 : -1;
          for (int f = 0; f < S.nfr; f++)
          {
            S.fr[0][f].g[0] = 20 * (f & 3);
            for (int g = 1; g < 3; g++)
            {
              dr_fr *r = &S.fr[g][f];
              r->mode = (g + f) & 1;
              r->n = 1 + (g + f) % 4;
              r->g[0] = -8 * ((f + g) % 5) - g;
              for (int i = 0; i < r->n; i++)
              {
                r->t[i] = 3 + i * (g + 2);
                if (i)
                  r->g[i] = r->g[i - 1] - 1;
              }
            }
          }
          drc_go("ducking", ord, 1, 96, 0);
        }
}
static void drc_clipping(void)
{
  /* a set against clipping: raised by the room the target leaves above its peak, never above 0 dB */
  for (int pk = -1; pk < 256; pk++)
    for (int t = 64; t <= 104; t += 4)
      for (int eff = 0; eff <= 6; eff++)
      {
        if (!vf_thorough && (pk * 7 + t / 4 + eff) % 43)
          continue;
        if (!vf_case("set against clipping, peak target %d, target %d, effect %d asked for", pk, t, eff))
          continue;
        drc_base(eff & 1 ? 2 : 0);
        S.level = 140;
        S.has_loud = 1;
        S.nli = 1;
        S.li[0] = (ld_info){0, 0, 63, 0, -1, -1, 1, {{1, 120, 2, 3}}};
        dr_in_init(&S.dc.in[0], 3, 0x100, 2);
        S.dc.in[0].gs[0] = 1;
        S.dc.in[0].gs[1] = eff % 3 == 0;
        S.dc.in[0].peak = pk;
        S.dc.in[0].off[0] = eff == 2 ? 5 : -1;
        S.dc.in[0].scal[0] = eff == 3 ? 0x44 : -1;
        for (int f = 0; f < S.nfr; f++)
          S.fr[0][f].g[0] = -9 * (f % 5) * (1 + f % 3);
        drc_go("clipping", 0, eff, t, T_of(t) - L_of(120));
      }
}
static void drc_fading(void)
{
  /* beside the chosen set, on every channel, alone or (unused) with a ducking set */
  for (int k = 0; k < 3; k++)
    for (int at = 0; at < 1024; at += 16)
      for (int ord = 0; ord < 2; ord++)
      {
        if (!vf_thorough && (at / 16 * 2 + ord + k) % 7)
          continue;
        if (!vf_case("fading from %d/8 dB, %s, order %d", -at, k == 0 ? "alone" : k == 1 ? "beside a set" : "beside a set and ducking", ord))
          continue;
        spec_init(6, "PSLP", 4);
        S.level = 150;
        S.has_drc = 1;
        S.dc.nch = 6;
        S.dc.ngs = 3;
        S.dc.gs[1].prof = GP_FADING;
        S.dc.gs[2].prof = 2;
        S.dc.ni = k + 1;
        int fi = k ? ord : 0, mi = !ord;
        if (k)
        {
          dr_in_init(&S.dc.in[mi], 1, 1, 6);
          for (int c = 0; c < 6; c++)
            S.dc.in[mi].gs[c] = c % 2;
        }
        dr_in_init(&S.dc.in[fi], 2, 0x200, 1);
        S.dc.in[fi].dmx = 0x7F;
        S.dc.in[fi].gs[0] = 2;
        S.dc.in[fi].peak = at % 48 ? -1 : at / 8;
        if (k == 2)
        {
          dr_in_init(&S.dc.in[2], 5, 0x800, 6);
          S.dc.in[2].gs[1] = 3;
        }
        for (int f = 0; f < S.nfr; f++)
        {
          S.fr[0][f].g[0] = 20 * (f & 3);
          S.fr[2][f].g[0] = -8 * (f % 3);
          dr_fr *r = &S.fr[1][f];
          r->mode = f & 1;
          r->n = 1 + f % 4;
          r->g[0] = -((at + 7 * f) % 400);
          for (int i = 0; i < r->n; i++)
          {
            r->t[i] = 3 + i * 5;
            if (i)
              r->g[i] = r->g[i - 1] - 1;
          }
        }
        if (!k)
        {
          /* no set but this one: compare with nothing chosen */
          S.dc.ni = 2;
          dr_in_init(&S.dc.in[1], 7, 1, 6);
        }
        drc_go("fading", k ? mi : 1, 1, 96, 0);
      }
}
static void drc_rendered(void)
{
  /* fading acts on what is played, whatever the layout */
  static const int lay[][2] = {{1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {7, 8}, {9, 3}, {10, 4}, {11, 7}, {12, 8}, {14, 8}, {16, 10}, {19, 12}};
  for (int l = 0; l < (int)(sizeof(lay) / sizeof(*lay)); l++)
    for (int at = 0; at < 400; at += 40)
    {
      if (!vf_thorough && (at / 40 + l) % 5)
        continue;
      if (!vf_case("fading from %d/8 dB, 5.1 played on layout %d", -at, lay[l][0]))
        continue;
      spec_init(6, "PSLP", 4);
      S.level = 150;
      S.has_drc = 1;
      S.dc.nch = 6;
      S.dc.ngs = 2;
      S.dc.gs[1].prof = GP_FADING;
      S.dc.ni = 2;
      dr_in_init(&S.dc.in[0], 2, 0x200, 1);
      S.dc.in[0].dmx = 0x7F;
      S.dc.in[0].gs[0] = 2;
      dr_in_init(&S.dc.in[1], 7, 1, 6);
      for (int f = 0; f < S.nfr; f++)
      {
        dr_fr *r = &S.fr[1][f];
        r->mode = f & 1;
        r->n = 1 + f % 4;
        r->g[0] = -at - 7 * (f % 3);
        for (int i = 0; i < r->n; i++)
        {
          r->t[i] = 3 + i * 5;
          if (i)
            r->g[i] = r->g[i - 1] - 1;
        }
      }
      drc_to = lay[l][0];
      drc_toch = lay[l][1];
      drc_go("rendered", 1, 1, 96, 0);
      drc_to = 0;
    }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  loudness_values();
  loudness_choice();
  loudness_outputs();
  drc_values();
  drc_times();
  drc_bands();
  drc_channels();
  drc_modifiers();
  drc_selection();
  drc_ducking();
  drc_clipping();
  drc_fading();
  drc_rendered();
  return vf_finish();
}
