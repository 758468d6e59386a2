/* P12: packets the decoder does not need.  Enumerated: packet type x length x content x label x place in the stream, one
 * or two packets inserted; and every long form of label and length of the packets that are needed.  Oracle: the PCM of
 * the stream without them. */
#include "vf.h"
#include "streams.h"

static dec_t *R, *D;
/* splits a stream into its packets */
typedef struct
{
  long off, body, end;
  uint32_t type, label;
} pk_t;
static pk_t pk[64];
static int npk;
static uint32_t rb(const uint8_t *p, long *bit, int n)
{
  uint32_t v = 0;
  while (n--)
  {
    v = v << 1 | (p[*bit >> 3] >> (7 - (*bit & 7)) & 1);
    ++*bit;
  }
  return v;
}
static uint32_t esc(const uint8_t *p, long *bit, int a, int b, int c)
{
  uint32_t v = rb(p, bit, a), w;
  if (v == (1u << a) - 1)
  {
    w = rb(p, bit, b);
    v += w;
    if (w == (1u << b) - 1)
      v += rb(p, bit, c);
  }
  return v;
}
static void split(blob b)
{
  npk = 0;
  for (long o = 0; o < b.n && npk < 64; npk++)
  {
    long bit = o * 8;
    pk[npk].off = o;
    pk[npk].type = esc(b.d, &bit, 3, 8, 8);
    pk[npk].label = esc(b.d, &bit, 2, 8, 32);
    long n = esc(b.d, &bit, 11, 24, 24);
    pk[npk].body = (bit + 7) >> 3;
    pk[npk].end = o = pk[npk].body + n;
  }
}
/* what may stand in a body the decoder has to skip */
enum { C_ZERO, C_ONES, C_SYNC, C_FRAME, C_N };
static const char *c_name[] = {"zeros", "ones", "sync words", "a coded frame"};
static void body(uint8_t *p, long n, int kind, blob b)
{
  for (long i = 0; i < n; i++)
  {
    static const uint8_t sy[] = {0xc0, 0x01, 0xa5};
    pk_t *f = &pk[2];
    p[i] = kind == C_ZERO ? 0 : kind == C_ONES ? 0xff : kind == C_SYNC ? sy[i % 3] : b.d[f->off + i % (f->end - f->off)];
  }
}
static blob base;
static int atend;
static void run(dec_t *d, blob b, const dconf *c)
{
  dec_defaults(d);
  dconf_apply(d, c);
  dec_all(d, b, 4000);
  dec_close(d);
  vf_trans += d->n_exec + d->n_init;
}
static void same(const char *what)
{
  if (atend && D->err_exec == 0x1800) /* nothing but that packet is left: more is asked for */
    D->err_exec = R->err_exec;
  if (D->err_init != R->err_init || D->err_exec != R->err_exec || D->fatal != R->fatal)
    vf_fail("codes", "%s: codes %x/%x (%d fatal), without it %x/%x", what, D->err_init, D->err_exec, D->fatal, R->err_init, R->err_exec);
  if (D->npcm != R->npcm || memcmp(D->pcm, R->pcm, R->npcm))
  {
    long i = 0;
    while (i < D->npcm && i < R->npcm && D->pcm[i] == R->pcm[i])
      i++;
    vf_fail("pcm", "%s: output differs from byte %ld on (%ld bytes, without it %ld)", what, i, D->npcm, R->npcm);
  }
  if (D->out.i_num_chan != R->out.i_num_chan || D->out.i_samp_freq != R->out.i_samp_freq || D->out.num_speakers != R->out.num_speakers)
    vf_fail("info", "%s: stream information differs", what);
  vf_nontriv++;
}
/* inserts packets before packet number at (npk: after the last) and compares */
static void insert(int at, const bw_t *ins, const dconf *c, const char *what)
{
  long off = at < npk ? pk[at].off : base.n, k = bw_len((bw_t *)ins);
  blob b;
  b.n = base.n + k;
  b.d = (uint8_t *)malloc(b.n);
  memcpy(b.d, base.d, off);
  memcpy(b.d + off, ins->d, k);
  memcpy(b.d + off + k, base.d + off, base.n - off);
  run(D, b, c);
  atend = at == npk;
  same(what);
  atend = 0;
  dec_free(D);
  free(b.d);
}
static const int types[] = {0, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 23, 24, 99, 261, 262, 263, 400, 517, 6};
#define NT ((int)(sizeof(types) / sizeof(*types)))
static const long lens[] = {0, 1, 2, 3, 7, 100, 255, 2046, 2047, 2048, 9000};
#define NL 11
static const uint32_t labels[] = {0, 1, 2, 3, 4, 257, 258, 259, 1000000};
static void put(bw_t *o, int type, uint32_t label, long n, int kind)
{
  static uint8_t buf[20000];
  body(buf, n, kind, base);
  if (type == 6)
    n = 1, buf[0] = 0xa5;
  mhas_packet(o, type, label, buf, n);
}
/* every packet of the stream written anew with the label, its length in the form chosen where it fits */
static blob relabel(uint32_t label)
{
  bw_t o;
  blob b;
  bw_init(&o);
  for (int i = 0; i < npk; i++)
    mhas_packet(&o, pk[i].type, pk[i].type == 6 ? 0 : label, base.d + pk[i].body, pk[i].end - pk[i].body);
  b.n = bw_len(&o);
  b.d = o.d;
  return b;
}
/* frames of the elements with an extension element before element pos (or none: -1); part of the frames leave it out */
static int cx_n, cx_type, cx_len, cx_pat;
static blob extended(const char *els, int cicp, int pos, int type, int len, int deflen, int cfg, int kind)
{
  sb_t *s = sb_new();
  char e[32];
  static uint8_t cb[40];
  int n = strlen(els);
  memset(cb, 0xff, sizeof(cb));
  strcpy(e, els);
  if (pos >= 0)
    sprintf(e, "%.*sX%s", pos, els, els + pos);
  sx_layout(s, cicp, e);
  if (pos >= 0)
  {
    s->cfg.el[pos].ext_type = type;
    s->cfg.el[pos].ext_deflen = deflen && len ? len : 0;
    if (cfg)
    {
      s->cfg.el[pos].ext_frag = 1;
      s->cfg.el[pos].ext_cfg = cb;
      s->cfg.el[pos].ext_cfg_len = 1 + (len + pos) % 33;
    }
    n++;
  }
  if (cx_n)
  {
    s->cfg.has_ext = 1;
    bw_init(&s->cfg.cfgext);
    bw_esc(&s->cfg.cfgext, cx_n - 1, 2, 4, 8);
    for (int i = 0; i < cx_n; i++)
    {
      bw_esc(&s->cfg.cfgext, cx_type, 4, 8, 16);
      bw_esc(&s->cfg.cfgext, cx_len, 4, 8, 16);
      for (int k = 0; k < cx_len; k++)
        bw_put(&s->cfg.cfgext, cx_pat, 8);
    }
  }
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < 4; f++)
  {
    for (int c = 0; c < s->nch; c++)
    {
      fd_gain(&s->ch[c], 140);
      int lfe = s->ch[c].max_sfb == 5;
      if (!lfe)
        s->ch[c].max_sfb = 20;
      sx_fill(&s->ch[c], 3, f * 9 + c, lfe ? 50 : 20);
    }
    if (pos >= 0)
    {
      s->ext[pos].present = f != 2;
      s->ext[pos].n = len;
      s->ext[pos].use_default = s->cfg.el[pos].ext_deflen && f != 3;
      for (int i = 0; i < len; i++)
        s->ext[pos].d[i] = kind == 0 ? 0 : kind == 1 ? 0xff : i * 37 + f;
    }
    sb_frame(s, f == 0);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  R = (dec_t *)calloc(1, sizeof(*R));
  D = (dec_t *)calloc(1, sizeof(*D));
  static const int ids[] = {ST_STEREO, ST_51, ST_MCT, ST_LTPF, ST_CHOBJ, ST_OBJ, ST_24K, ST_WINDOWS, ST_714, ST_JK + JK_LPDFB, ST_JK + JK_IGFENF, ST_JK + JK_HOA};
  int nid = vf_thorough ? 9 : 2, nf = vf_thorough ? 6 : 4;
  char w[160];
  for (int k = 0; k < nid; k++)
    for (int t = 0; t < NT; t++)
      for (int l = 0; l < NL; l++)
      {
        if (types[t] == 6 && l)
          continue;
        if (!vf_case("type %d length %ld in stream %s", types[t], lens[l], st_name[ids[k]]))
          continue;
        const dconf *c = &dconfs[vf_thorough ? (t + l) % NDCONF : (t + l) % 2];
        base = st_build(ids[k], nf);
        split(base);
        run(R, base, c);
        if (!R->npcm)
          vf_fail("reference", "nothing decoded");
        vf_outcome(vf_hash(R->pcm, R->npcm, t * 16 + l));
        for (int at = 0; at <= npk; at++)
          for (int kind = 0; kind < C_N; kind++)
          {
            if (!vf_thorough && kind != (at + t + l) % C_N)
              continue;
            uint32_t label = types[t] == 6 ? 0 : labels[(at + kind + l) % 9];
            bw_t o;
            bw_init(&o);
            put(&o, types[t], label, lens[l], kind);
            snprintf(w, sizeof(w), "packet of type %d, label %u, %ld bytes of %s before packet %d", types[t], label, lens[l], c_name[kind], at);
            insert(at, &o, c, w);
            bw_free(&o);
          }
        dec_free(R);
        free(base.d);
      }
  /* two packets, every ordered pair of types, between the configuration and the first frame and between frames */
  for (int t = 0; t < NT; t++)
    if (vf_case("pairs beginning with type %d", types[t]))
    {
      base = st_build(ST_STEREO, 3);
      split(base);
      run(R, base, &dconfs[0]);
      for (int u = 0; u < NT; u++)
        for (int at = 1; at < npk; at += vf_thorough ? 1 : 2)
        {
          bw_t o;
          bw_init(&o);
          put(&o, types[t], 0, 5 + u, (t + u) % C_N);
          put(&o, types[u], 2, 9 + t, (t + u + 1) % C_N);
          snprintf(w, sizeof(w), "packets of types %d and %d before packet %d", types[t], types[u], at);
          insert(at, &o, &dconfs[0], w);
          bw_free(&o);
        }
      dec_free(R);
      free(base.d);
    }
  /* loudness information between the frames: every number of entries, with and without peaks, and a longer packet */
  for (int cnt = 0; cnt < 12; cnt++)
    for (int pk4 = 0; pk4 < 4; pk4++)
      if (vf_case("loudness packets with %d entries, peaks %d", cnt, pk4))
      {
        base = st_build(ST_STEREO, 3);
        split(base);
        run(R, base, &dconfs[0]);
        for (int extra = 0; extra < 3; extra++)
          for (int at = 2; at < npk; at++)
          {
            bw_t l, o;
            bw_init(&l);
            bw_init(&o);
            bw_put(&l, cnt, 6);
            for (int i = 0; i < cnt; i++)
            {
              bw_put(&l, i & 3, 2);
              if ((i & 3) == 3)
                bw_put(&l, i, 5);
              else if (i & 3)
                bw_put(&l, i, 7);
              bw_put(&l, i, 6);
              bw_put(&l, 0, 7);
              bw_put(&l, pk4 & 1, 1);
              if (pk4 & 1)
                bw_put(&l, 100 + i, 12);
              bw_put(&l, pk4 >> 1, 1);
              if (pk4 >> 1)
              {
                bw_put(&l, 200 + i, 12);
                bw_put(&l, 2, 4);
                bw_put(&l, 1, 2);
              }
              bw_put(&l, 1, 4);
              bw_put(&l, 1, 4);
              bw_put(&l, 100, 8);
              bw_put(&l, 2, 4);
              bw_put(&l, 1, 2);
            }
            bw_put(&l, 0, 2);
            bw_align(&l);
            for (int i = 0; i < extra; i++)
              bw_put(&l, 0xff, 8);
            mhas_packet(&o, 22, 0, l.d, bw_len(&l));
            snprintf(w, sizeof(w), "loudness packet, %d entries, before packet %d", cnt, at);
            insert(at, &o, &dconfs[0], w);
            bw_free(&l);
            bw_free(&o);
          }
        dec_free(R);
        free(base.d);
      }
  /* labels of the packets that carry the audio */
  for (int k = 0; k < nid; k++)
    for (uint32_t lb = 0; lb < (vf_thorough ? 700 : 300); lb++)
      if ((lb < 8 || lb > 250 || vf_thorough) && vf_case("all packets labelled %u, stream %s", lb, st_name[ids[k]]))
      {
        uint32_t lab = lb < 260 ? lb : lb == 299 ? 0xfffffff0u : lb * 4099u * (lb - 259);
        base = st_build(ids[k], 3);
        split(base);
        run(R, base, &dconfs[0]);
        blob b = relabel(lab);
        run(D, b, &dconfs[0]);
        snprintf(w, sizeof(w), "all packets labelled %u", lab);
        same(w);
        dec_free(D);
        dec_free(R);
        free(b.d);
        free(base.d);
      }
  /* extension elements and configuration extensions the decoder does not know: every place among the elements, payload
   * length, way of coding the length */
  static const int etypes[] = {EXT_FILL, 1, 2, 6, 8, 10, 11, 12, 15, 16, 127, 270, 271, 500};
  static const int elens[] = {0, 1, 2, 3, 31, 253, 254, 255, 256, 257, 600, 1500, 1537, 2040, 3100, 5000};
  static const struct { const char *els; int cicp; } lay[] = {{"S", 1}, {"P", 2}, {"SP", 3}, {"PSLP", 6}};
  for (int l = 0; l < 4; l++)
    for (int t = 0; t < 14; t++)
      for (int form = 0; form < 4; form++)
        if (vf_case("extension elements of type %d form %d in %s", etypes[t], form, lay[l].els))
        {
          /* form: bit 0 default length in use, bit 1 fragment flags and configuration bytes where the type allows them */
          int fl = etypes[t] != EXT_FILL && (form & 2), n = strlen(lay[l].els);
          base = extended(lay[l].els, lay[l].cicp, -1, 0, 0, 0, 0, 0);
          run(R, base, &dconfs[0]);
          for (int pos = 0; pos <= n; pos++)
            for (int len = 0; len < 16; len++)
            {
              if (!vf_thorough && (pos + len + t) % 2)
                continue;
              blob b = extended(lay[l].els, lay[l].cicp, pos, etypes[t], elens[len], form & 1, fl ? 1 : 0, (pos + len) % 3);
              run(D, b, &dconfs[0]);
              snprintf(w, sizeof(w), "extension of type %d, %d bytes, before element %d", etypes[t], elens[len], pos);
              same(w);
              dec_free(D);
              free(b.d);
            }
          dec_free(R);
          free(base.d);
        }
  /* frames of every length round the limits of the forms the packet length has */
  for (int k = 0; k < 2; k++)
    for (int n = 1; n < (vf_thorough ? 2100 : 2060); n += n < 1900 ? vf_thorough ? 11 : 97 : 1)
      if (vf_case("frames filled up by %d bytes, kind %d", n, k))
      {
        base = extended("P", 2, -1, 0, 0, 0, 0, 0);
        run(R, base, &dconfs[0]);
        blob b = extended("P", 2, k, EXT_FILL, n, 0, 0, k + 1);
        run(D, b, &dconfs[0]);
        snprintf(w, sizeof(w), "frames filled up by %d bytes", n);
        same(w);
        dec_free(D);
        dec_free(R);
        free(b.d);
        free(base.d);
      }
  /* configuration extensions: fill, and types that are not defined */
  static const int ctypes[] = {0, 8, 9, 14, 15, 16, 127, 269, 270, 271, 300};
  static const int clens[] = {0, 1, 2, 14, 15, 16, 100, 269, 270, 271, 300};
  for (int t = 0; t < 11; t++)
    for (int cnt = 1; cnt <= 5; cnt++)
      if (vf_case("%d configuration extensions of type %d", cnt, ctypes[t]))
        for (int len = 0; len < 11; len++)
        {
          int m = cnt;
          if (clens[len] * m > 700)
            continue;
          base = extended("PSLP", 6, -1, 0, 0, 0, 0, 0);
          run(R, base, &dconfs[0]);
          cx_type = ctypes[t];
          cx_n = m;
          cx_len = clens[len];
          cx_pat = !ctypes[t] ? 0xa5 : (t + cnt) & 1 ? 0xff : 0x5a;
          blob b = extended("PSLP", 6, -1, 0, 0, 0, 0, 0);
          cx_n = 0;
          run(D, b, &dconfs[0]);
          snprintf(w, sizeof(w), "%d configuration extensions of type %d, %d bytes", m, ctypes[t], clens[len]);
          same(w);
          dec_free(D);
          dec_free(R);
          free(b.d);
          free(base.d);
        }
  return vf_finish();
}
