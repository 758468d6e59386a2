/* P16: object metadata.  Enumerated: every value of every field in each way it can be transmitted, every form of frame after
 * every form of intra-coded frame, and all sequences of frame forms up to a depth, in frames of 256, 512 and 1024 samples.
 * Oracle: the positions, gains, spreads and priorities handed to an external renderer are the ones the encoder meant, and
 * the rendered output is that of the stream that transmits the same values plainly, bit by bit. */
#include "vf.h"
#include "streams.h"
#include "objects.h"
enum { I, A, D, NONE };
#define MAXF 2000
typedef struct
{
  int nobj, len, uniform, pri, ns, nf, sub;
  sb_t *coded, *plain;
  om_state st, pl;
  bw_t b, p;
  uint8_t has[MAXF][4][8];
  om_t val[MAXF][4][8];
} hist;
static hist H;
static uint32_t rs;
static int rnd(int n)
{
  rs = rs * 1664525 + 1013904223;
  return (rs >> 8) % n;
}
static sb_t *stream(hist *h)
{
  sb_t *s = sb_new();
  ob_layout(s, 6, h->nobj, h->len < 1024 ? h->len : 0, h->uniform, h->pri);
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int i = 0; i < h->nobj; i++)
  {
    fd_ch *x = &s->ch[i];
    x->win = W_LONG;
    x->max_sfb = gold_nsfb_l[3];
    x->arith_reset = 1;
    memset(x->q, 0, sizeof x->q);
    x->q[20 + 35 * i] = 7;
    fd_gain(x, 150);
  }
  return s;
}
static void begin(int nobj, int len, int uniform, int pri)
{
  hist *h = &H;
  bw_t b = h->b, p = h->p;
  memset(h, 0, sizeof *h);
  h->b = b;
  h->p = p;
  if (!h->b.d)
    bw_init(&h->b), bw_init(&h->p);
  h->nobj = nobj;
  h->len = len;
  h->uniform = uniform;
  h->pri = pri;
  h->ns = 1024 / len;
  h->st.nobj = h->pl.nobj = nobj;
  h->st.uniform = h->pl.uniform = uniform;
  h->st.pri = h->pl.pri = pri;
  h->coded = stream(h);
  h->plain = stream(h);
}
static void frame_done(hist *h)
{
  ob_md(h->coded, ob_ext, &h->b);
  ob_md(h->plain, ob_ext, &h->p);
  sb_frame(h->coded, h->nf == 0);
  sb_frame(h->plain, h->nf == 0);
  bw_reset(&h->b);
  bw_reset(&h->p);
  h->nf++;
}
/* one sub-frame; mode for I; nb < 0: the narrowest that fits */
static void put(int kind, const om_t *v, const int *mode, unsigned set, int nb, int force)
{
  hist *h = &H;
  static const int plainly[OM_N] = {0};
  if (!h->sub)
    bw_reset(&h->b), bw_reset(&h->p);
  if (h->ns > 1)
  {
    bw_put(&h->b, kind != NONE, 1);
    bw_put(&h->p, 1, 1);
  }
  if (kind == I)
    om_intra(&h->st, v, mode ? mode : plainly, &h->b);
  if (kind == A)
    om_abs(&h->st, v, set, &h->b);
  if (kind == D)
  {
    if (nb < 0)
      for (nb = 0; nb < 7 && !om_diff_fits(&h->st, v, set, nb); nb++)
        ;
    om_diff(&h->st, v, set, nb, force, &h->b);
  }
  om_intra(&h->pl, h->st.cur, plainly, &h->p);
  for (int i = 0; i < h->nobj; i++)
  {
    h->has[h->nf][h->sub][i] = kind == I || ((kind == A || kind == D) && (set >> i & 1));
    h->val[h->nf][h->sub][i] = h->st.cur[i];
  }
  if (++h->sub == h->ns)
  {
    h->sub = 0;
    frame_done(h);
  }
}
/* what the external renderer is told, per frame */
static uint8_t md[MAXF + 8][768];
static int nmd, mdlen[MAXF + 8];
static void watch(dec_t *d, int executing)
{
  if (!executing || d->out.num_out_bytes <= 0 || nmd >= MAXF + 8)
    return;
  memcpy(md[nmd], d->in.ptr_ext_ren_oam_data_buf, 768);
  mdlen[nmd++] = d->out.oam_md_payload_length;
}
static int rd(const uint8_t *p, int *pos, int n)
{
  int v = 0;
  while (n--)
    v = v << 1 | (p[*pos >> 3] >> (7 - (*pos & 7)) & 1), ++*pos;
  return v;
}
static int field(const om_t *o, int k) { return o->v[k] & ((1 << om_bits[k]) - 1); }
static const char *const om_name[OM_N] = {"azimuth", "elevation", "radius", "gain", "spread width", "spread height", "spread depth", "priority"};
static int told(hist *h, const char *what, int f)
{
  const uint8_t *p = md[f];
  int pos = 0, v;
#define EXPECT(n, e, name)                                                                                   \
  if ((v = rd(p, &pos, n)) != (e))                                                                           \
  {                                                                                                          \
    vf_fail(name, "%s: frame %d object %d sub-frame %d: renderer is told %d, transmitted %d", what, f, i, k, v, e); \
    return 0;                                                                                                \
  }
  int i = 0, k = 0;
  EXPECT(6, h->len >> 6, "told-length")
  EXPECT(2, 0, "told-truncation")
  EXPECT(9, h->nobj, "told-count")
  for (i = 0; i < h->nobj; i++)
  {
    pos += 9;
    EXPECT(1, h->pri, "told-priority-flag")
    EXPECT(1, h->uniform, "told-uniform-flag")
    EXPECT(6, h->ns, "told-subframes")
    for (k = 0; k < h->ns; k++)
    {
      EXPECT(1, h->has[f][k][i], "told-presence")
      static const int seq[] = {OM_AZ, OM_EL, OM_RAD, OM_GAIN, OM_PRI, OM_SW, OM_SH, OM_SD};
      if (h->has[f][k][i])
        for (int j = 0; j < 8; j++)
          if ((seq[j] != OM_PRI || h->pri) && (seq[j] < OM_SH || seq[j] > OM_SD || !h->uniform))
            EXPECT(om_bits[seq[j]], field(&h->val[f][k][i], seq[j]), om_name[seq[j]])
    }
    pos += 1 + 3 + 7 + 7 + 6;
    EXPECT(4, 0, "told-sectors")
  }
  EXPECT(3, 0, "told-extensions")
  if ((pos + 7) / 8 != mdlen[f])
    return vf_fail("told-size", "%s: frame %d: %d bytes announced, %d written", what, f, mdlen[f], (pos + 7) / 8), 0;
  return 1;
}
static void check(const char *what)
{
  hist *h = &H;
  if (h->sub)
    printf("HARNESS incomplete frame\n"), exit(3);
  dec_t d, e;
  static uint8_t ch[768], om[768], ho[768], pcm[1024 * 32 * 4];
  for (int i = 0; i < 2; i++)
  {
    dec_t *x = i ? &e : &d;
    sb_t *s = i ? h->plain : h->coded;
    blob b;
    b.d = sb_take(s, &b.n);
    dec_defaults(x);
    x->in.ui_pcm_wd_sz = 32;
    if (!i)
    {
      x->in.extrn_rend_flag = 1;
      x->in.ptr_ext_ren_ch_data_buf = ch;
      x->in.ptr_ext_ren_oam_data_buf = om;
      x->in.ptr_ext_ren_hoa_data_buf = ho;
      x->in.ptr_ext_ren_pcm_buf = pcm;
      nmd = 0;
      dec_watch = watch;
    }
    dec_all(x, b, h->nf + 20);
    dec_watch = 0;
    free(b.d);
    sb_del(s);
  }
  long fb = 1024l * 4 * d.out.i_num_chan;
  if (d.err_create || d.err_init || d.err_exec || d.npcm < fb * (h->nf - 1))
    vf_fail("not-decoded", "%s: create %x init %x execute %x, %ld bytes for %d frames", what, d.err_create, d.err_init, d.err_exec, (long)d.npcm, h->nf);
  else if (e.npcm != d.npcm)
    vf_fail("length", "%s: %ld bytes, plainly coded %ld", what, (long)d.npcm, (long)e.npcm);
  else
  {
    for (long i = 0; i < d.npcm; i++)
      if (d.pcm[i] != e.pcm[i])
      {
        vf_fail("rendering", "%s: frame %ld sample %ld: differs from the plainly coded stream", what, i / fb, i % fb / 4 / d.out.i_num_chan);
        break;
      }
    int f;
    for (f = 0; f < h->nf && f < nmd; f++)
      if (!told(h, what, f))
        break;
    if (f == nmd && f < h->nf - 1)
      vf_fail("told-frames", "%s: %d frames", what, f);
    vf_nontriv++;
    vf_trans += h->nf * h->ns;
  }
  dec_free(&d);
  dec_free(&e);
}
static void any(om_t *v, int n)
{
  for (int i = 0; i < n; i++)
    for (int k = 0; k < OM_N; k++)
      v[i].v[k] = rnd(1 << om_bits[k]) - (om_sgn[k] ? 1 << (om_bits[k] - 1) : 0);
}
/* values near the current ones, as differences of nb + 2 bits allow */
static void near(om_t *v, int nb)
{
  for (int i = 0; i < H.nobj; i++)
    for (int k = 0; k < OM_N; k++)
    {
      int n = nb + 2, lo = om_sgn[k] ? -(1 << (om_bits[k] - 1)) : 0, hi = lo + (1 << om_bits[k]) - 1;
      if (k != OM_AZ && n > om_bits[k] + 1)
        n = om_bits[k] + 1;
      int x = H.st.cur[i].v[k] + rnd(1 << n) - (1 << (n - 1));
      v[i].v[k] = x < lo ? lo : x > hi ? hi : x;
    }
}
static void fill(void) /* completes the frame */
{
  while (H.sub)
    put(NONE, 0, 0, 0, 0, 0);
}
static int size_of(int k) { return 1 << om_bits[k]; }
static int lo_of(int k) { return om_sgn[k] ? -(1 << (om_bits[k] - 1)) : 0; }
/* every value of every field, in intra-coded and absolute form, and from every other value in differential form */
static void values(int nobj, int len, int uniform, int pri, int kind, int o)
{
  char what[96];
  snprintf(what, sizeof what, "%d objects, %d samples, uniform %d, priority %d, object %d, %s", nobj, len, uniform, pri, o,
           kind == I ? "intra" : "absolute");
  om_t v[8], base[8];
  begin(nobj, len, uniform, pri);
  any(base, nobj);
  put(I, base, 0, 0, 0, 0);
  for (int k = 0; k < OM_N; k++)
    for (int x = 0; x < size_of(k); x++)
    {
      memcpy(v, base, sizeof v);
      v[o].v[k] = lo_of(k) + x;
      put(kind, v, 0, 1u << o, 0, 0);
    }
  fill();
  check(what);
}
static void differences(int nobj, int len, int uniform, int nb, int force)
{
  char what[96];
  snprintf(what, sizeof what, "%d objects, %d samples, uniform %d, differences of %d bits, %s", nobj, len, uniform, nb + 2, force ? "all sent" : "zeros left out");
  om_t v[8];
  begin(nobj, len, uniform, 1);
  any(v, nobj);
  put(I, v, 0, 0, 0, 0);
  for (int k = 0; k < OM_N; k++)
  {
    int n = nb + 2;
    if (k != OM_AZ && n > om_bits[k] + 1)
      n = om_bits[k] + 1;
    for (int x = -(1 << (n - 1)); x < 1 << (n - 1); x++)
    {
      int o = rnd(nobj), lo = lo_of(k), hi = lo + size_of(k) - 1;
      memcpy(v, H.st.cur, sizeof v);
      int to = H.st.cur[o].v[k] + x;
      if (to < lo || to > hi) /* the difference needs another start */
      {
        int from = x > 0 ? lo : hi;
        if (from + x < lo || from + x > hi)
          continue;
        v[o].v[k] = from;
        put(A, v, 0, 1u << o, 0, 0);
        to = from + x;
      }
      v[o].v[k] = to;
      put(D, v, 0, 1u << o, nb, force);
      if (H.nf > MAXF - 8)
        break;
    }
  }
  fill();
  check(what);
}
/* every combination of individual, common and fixed parameters, followed by dynamic frames */
static void modes(int nobj, int len, int uniform, int pri, int part)
{
  char what[96];
  snprintf(what, sizeof what, "%d objects, %d samples, uniform %d, priority %d, forms %d..", nobj, len, uniform, pri, part * 81);
  om_t v[8];
  begin(nobj, len, uniform, pri);
  for (int m = part * 81; m < part * 81 + 81; m++)
  {
    static const int seq[] = {OM_AZ, OM_EL, OM_RAD, OM_GAIN, OM_SW, OM_PRI};
    int mode[OM_N] = {0}, x = m;
    for (int k = 0; k < 6; k++, x /= 3)
      mode[seq[k]] = x % 3;
    any(v, nobj);
    put(I, v, mode, 0, 0, 0);
    any(v, nobj);
    put(A, v, 0, 1 + rnd((1 << nobj) - 1), 0, 0);
    near(v, 3);
    put(D, v, 0, 1 + rnd((1 << nobj) - 1), 3, m & 1);
    near(v, 5);
    put(D, v, 0, (1 << nobj) - 1, 5, 0);
    any(v, nobj);
    put(A, v, 0, (1 << nobj) - 1, 0, 0);
  }
  fill();
  check(what);
}
/* all sequences of frame forms */
static void sequence(int *kinds, int n, int nobj, unsigned subset)
{
  om_t v[8];
  static const int mix[OM_N] = {2, 1, 0, 0, 2, 0, 0, 1};
  any(v, nobj);
  put(I, v, 0, 0, 0, 0);
  for (int i = 0; i < n; i++)
  {
    unsigned all = (1u << nobj) - 1;
    int nb = rnd(8);
    any(v, nobj);
    switch (kinds[i])
    {
    case 0: put(I, v, 0, 0, 0, 0); break;
    case 1: put(I, v, mix, 0, 0, 0); break;
    case 2: put(A, v, 0, all, 0, 0); break;
    case 3: put(A, v, 0, subset, 0, 0); break;
    case 4: near(v, nb); put(D, v, 0, all, nb, 0); break;
    case 5: near(v, nb); put(D, v, 0, subset, nb, 1); break;
    case 6: put(A, v, 0, 0, 0, 0); break; /* nothing changes */
    case 7: put(NONE, v, 0, 0, 0, 0); break;
    }
  }
}
static void sequences(int nobj, int len, int uniform, int pri, int depth, int first, unsigned subset)
{
  char what[96];
  int nk = len < 1024 ? 8 : 7, k[8] = {0};
  snprintf(what, sizeof what, "%d objects, %d samples, uniform %d, priority %d, subset %x, sequences from %d", nobj, len, uniform, pri, subset, first);
  int total = 1, per = 1;
  for (int i = 0; i < depth; i++)
    total *= nk;
  for (int i = 1; i < depth; i++)
    per *= nk;
  begin(nobj, len, uniform, pri);
  for (int s = first * per; s < (first + 1) * per && s < total; s++)
  {
    int x = s;
    for (int i = depth - 1; i >= 0; i--, x /= nk)
      k[i] = x % nk;
    sequence(k, depth, nobj, subset);
    if (H.nf > MAXF - 8)
    {
      fill();
      check(what);
      begin(nobj, len, uniform, pri);
    }
  }
  fill();
  check(what);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  static const int lens[] = {1024, 512, 256};
  for (int nobj = 1; nobj <= 4; nobj++)
    for (int l = 0; l < 3; l++)
      for (int u = 0; u < 2; u++)
      {
        for (int pri = 0; pri < 2; pri++)
        {
          for (int kind = I; kind <= A; kind++)
            for (int o = 0; o < nobj; o++)
              if ((vf_thorough || pri == (u ^ (o & 1))) && vf_case("values %d %d %d %d %d %d", nobj, lens[l], u, pri, kind, o))
              {
                rs = nobj * 7 + l;
                values(nobj, lens[l], u, pri, kind, o);
              }
          if (nobj > 1)
            for (int part = 0; part < 9; part++)
              if ((vf_thorough || nobj == 2 || (part + nobj + l) % 3 == 0) && vf_case("modes %d %d %d %d %d", nobj, lens[l], u, pri, part))
              {
                rs = nobj * 7 + l + part * 11;
                modes(nobj, lens[l], u, pri, part);
              }
          int nk = lens[l] < 1024 ? 8 : 7;
          for (int f = 0; f < nk; f++)
            for (unsigned sub = 1; sub < 1u << nobj; sub++)
              if ((vf_thorough || (sub * 5 + f + pri * 2 + u) % (nobj * nobj) == 0) && vf_case("sequences %d %d %d %d %d %x", nobj, lens[l], u, pri, f, sub))
              {
                rs = nobj * 7 + l + f * 13 + sub * 17;
                sequences(nobj, lens[l], u, pri, vf_thorough ? 4 : 3, f, sub);
              }
        }
        for (int nb = 0; nb < 8; nb++)
          for (int force = 0; force < 2; force++)
            if ((vf_thorough || force == ((nb + nobj) & 1)) && vf_case("differences %d %d %d %d %d", nobj, lens[l], u, nb, force))
            {
              rs = nobj * 7 + nb;
              differences(nobj, lens[l], u, nb, force);
            }
      }
  return vf_finish();
}
