/* P15: random access, repeated configurations, reconfiguration.  Streams of the synthesiser are taken apart into packets
 * and put together again: started at every independent frame, with the configuration repeated before every subset of
 * frames, and one behind the other in every order, cut after every number of frames. */
#include "vf.h"
#include "streams.h"
#include "packets.h"

static void put(blob *o, pkt k)
{
  o->d = realloc(o->d, o->n + k.n + 1);
  memcpy(o->d + o->n, k.p, k.n);
  o->n += k.n;
}
static const uint8_t syncb[] = {0xc0, 0x01, 0xa5};
static const pkt sync_pkt = {syncb, 3};
enum { NF = 48 };
static parts P[ST_ALL + 2], Q[ST_ALL];
static blob cut(const parts *p, int from, int to, unsigned rep, int withsync)
{
  blob o = {0, 0};
  put(&o, sync_pkt);
  put(&o, p->cfg);
  for (int f = from; f < to; f++)
  {
    if (rep >> (f - from) & 1)
    {
      if (withsync)
        put(&o, sync_pkt);
      put(&o, p->cfg);
    }
    put(&o, p->fr[f]);
  }
  return o;
}
typedef struct { uint8_t *pcm; long n; int e, nch, fs, ws; } res;
static res run(blob b, const dconf *c, int keep)
{
  dec_t d;
  dec_defaults(&d);
  dconf_apply(&d, c);
  res r;
  r.e = dec_all(&d, b, 0);
  r.nch = d.out.i_num_chan;
  r.fs = d.out.i_samp_freq;
  r.ws = c->wd / 8;
  dec_close(&d);
  r.pcm = malloc(d.npcm + 1);
  memcpy(r.pcm, d.pcm, d.npcm);
  r.n = d.npcm;
  dec_free(&d);
  if (!keep)
    free(b.d);
  return r;
}
static double smp(const res *r, long i)
{
  const uint8_t *p = r->pcm + i * r->ws;
  if (r->ws == 2)
    return *(int16_t *)p;
  if (r->ws == 3)
    return ((int32_t)(p[0] << 8 | p[1] << 16 | (uint32_t)p[2] << 24) >> 8) / 256.0;
  return *(int32_t *)p / 65536.0;
}
/* the frames from k on behind m frames of the beginning (and the configuration again); m = 0: at the start of the stream */
static void entry(int id, int c, int k, int m, int again)
{
  blob o = cut(&Q[id], 0, m, 0, 0);
  if (again)
    put(&o, Q[id].cfg);
  for (int f = k; f < NF; f++)
    put(&o, Q[id].fr[f]);
  static res a;
  static int aid = -1, ac;
  if (aid != id || ac != c)
  {
    free(a.pcm);
    a = run(cut(&Q[id], 0, NF, 0, 0), &dconfs[c], 0);
    aid = id;
    ac = c;
  }
  res b = run(o, &dconfs[c], 0);
  if (a.e || b.e || a.nch != b.nch || a.fs != b.fs)
    vf_fail("refused", "whole: code %x, %d channels, %d Hz; from frame %d: code %x, %d channels, %d Hz", a.e, a.nch, a.fs, k, b.e, b.nch, b.fs);
  else
  {
    long na = a.n / a.nch / a.ws, nb = b.n / b.nch / b.ws, flen = (na - nb) / (k - m);
    if ((na - nb) % (k - m) || (flen != 1024 && flen != 1536 && flen != 2048 && flen != 3072))
      vf_fail("length", "%ld samples, %ld from frame %d on", na, nb, k);
    else
    {
      double pk = 0, fw[NF] = {0};
      for (long t = 0; t < na * a.nch; t++)
        pk = fmax(pk, fabs(smp(&a, t)));
      for (long t = flen * m; t < nb; t++)
        for (int ch = 0; ch < a.nch; ch++)
        {
          double x = smp(&a, (t + flen * (k - m)) * a.nch + ch), y = smp(&b, t * a.nch + ch), e = fabs(x - y);
          long j = t / flen - m;
          if (flen > 1024 && t < flen * (m + 1) + 60)
            j = 0; /* the resampler's filter reaches back into the overlap */
          fw[j] = fmax(fw[j], e);
        }
      double lsb = a.ws == 2 ? 1 : a.ws == 3 ? 1.0 / 256 : 1.0 / 65536;
      for (int j = 1; j < NF - k; j++)
      {
        /* the long-term postfilter's feedback and the energies of the layout conversion fade away */
        double lim = 0;
        if (id == ST_LTPF)
          lim = lsb + pk * (j == 1 ? 0.05 : j == 2 ? 1e-3 : 1e-5);
        /* gains act one frame late and start from the last gain of the frame before */
        if (id == ST_DRC && dconfs[c].tgt)
          lim += j == 1 ? 8 * pk : 0;
        if (dconfs[c].cicp)
          lim += lsb + 0.35 * pk * pow(0.87, j - 1);
        if (fw[j] > lim)
        {
          vf_fail("history", "frame %d (%d after the entry): off by %.4f, peak %.1f", k + j, j, fw[j], pk);
          break;
        }
      }
      vf_trans += nb;
      if (pk > 50)
        vf_nontriv++;
    }
  }
  vf_outcome(vf_hash(b.pcm, b.n, k));
  free(b.pcm);
}
static int same(const res *a, const res *b, const char *sig)
{
  if (a->e || b->e || a->nch != b->nch || a->fs != b->fs || a->n != b->n)
  {
    vf_fail(sig, "code %x, %d channels, %d Hz, %ld bytes instead of code %x, %d channels, %d Hz, %ld bytes", b->e, b->nch, b->fs, b->n, a->e, a->nch, a->fs, a->n);
    return 0;
  }
  for (long i = 0; i < a->n; i++)
    if (a->pcm[i] != b->pcm[i])
    {
      long t = i / a->nch / a->ws;
      vf_fail(sig, "sample %ld of channel %ld (frame %ld) differs", t, i / a->ws % a->nch, t / 1024);
      return 0;
    }
  return 1;
}
static void repeats(int id, int c, unsigned from, unsigned to, int n)
{
  res a = run(cut(&P[id], 0, n, 0, 0), &dconfs[c], 0);
  for (unsigned m = from; m < to; m++)
    for (int s = 0; s < 2; s++)
    {
      res b = run(cut(&P[id], 0, n, m, s), &dconfs[c], 0);
      int ok = same(&a, &b, "repeat");
      vf_outcome(vf_hash(b.pcm, b.n, id));
      vf_trans += n;
      free(b.pcm);
      if (!ok)
        m = to, s = 2;
    }
  vf_nontriv++;
  free(a.pcm);
}
static void joined(const int *ids, const int *len, int n, int c, int sync)
{
  blob o = {0, 0};
  res all = {0};
  for (int i = 0; i < n; i++)
  {
    blob x = cut(&P[ids[i]], 0, len[i], 0, 0);
    res r = run(x, &dconfs[c], 1);
    pkt k = {x.d, x.n};
    if (i && !sync)
      k.p += 3, k.n -= 3;
    put(&o, k);
    free(x.d);
    all.pcm = realloc(all.pcm, all.n + r.n + 1);
    memcpy(all.pcm + all.n, r.pcm, r.n);
    all.n += r.n;
    all.e |= r.e;
    all.nch = r.nch;
    all.fs = r.fs;
    all.ws = r.ws;
    free(r.pcm);
  }
  res b = run(o, &dconfs[c], 0);
  same(&all, &b, "switch");
  vf_outcome(vf_hash(b.pcm, b.n, n));
  vf_trans += n;
  vf_nontriv++;
  free(all.pcm);
  free(b.pcm);
}
static int same_cfg(int x, int y) { return P[x].cfg.n == P[y].cfg.n && !memcmp(P[x].cfg.p, P[y].cfg.p, P[x].cfg.n); }
/* a stream whose configuration carries an extension of no known kind, of n bytes, one of them changed */
static parts with_extension(int n, int at, int by)
{
  sb_t *s = sb_new();
  sx_layout(s, 1, "S");
  bw_t *x = &s->cfg.cfgext;
  s->cfg.has_ext = 1;
  bw_init(x);
  bw_esc(x, 0, 2, 4, 8);
  bw_esc(x, 9, 4, 8, 16);
  bw_esc(x, n, 4, 8, 16);
  for (int i = 0; i < n; i++)
    bw_put(x, (i * 29 + 5) % 256 ^ (i == at ? by : 0), 8);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < 4; f++)
  {
    fd_gain(&s->ch[0], 150);
    sx_fill(&s->ch[0], s->cfg.fs_idx, f + 3, 40);
    sb_frame(s, 1);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return take_apart(b);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  int K = st_count(), K2 = ST_ALL;
  for (int i = 0; i < K2; i++)
  {
    P[i] = take_apart(st_build(i, 12));
    st_nonoise = 1;
    Q[i] = take_apart(st_build(i, NF));
    st_nonoise = 0;
  }
  for (int id = 0; id < K; id++)
    for (int c = 0; c < NDCONF; c++)
      for (int k = 4; k < 13; k += 4)
        for (int m = 0; m < k && m < (vf_thorough ? 6 : 3); m++)
          for (int again = 0; again < (m ? 2 : 1); again++)
            if (dconf_ok(id, c) && vf_case("%s, %s, frame %d behind %d frames%s", st_name[id], dconfs[c].name, k, m, again ? " and the configuration" : ""))
              entry(id, c, k, m, again);
  for (int id = 0; id < K2; id++)
    for (int c = 0; c < NDCONF; c++)
      if (dconf_ok(id, c) && (id < K || c < 3))
      {
        int n = vf_thorough ? 8 : 5;
        for (unsigned m = 0; m < 1u << n; m += 16)
          if (vf_case("%s, %s, configuration repeated, subsets from %u", st_name[id], dconfs[c].name, m))
            repeats(id, c, m, m + 16, n);
      }
  for (int x = 0; x < K2; x++)
    for (int y = 0; y < K2; y++)
      for (int c = 0; c < (x < K && y < K ? NDCONF : 3); c++)
        for (int l = 1; l <= (vf_thorough ? 3 : 1); l++)
          if (x != y && !same_cfg(x, y) && dconf_ok(x, c) && dconf_ok(y, c) && vf_case("%d frames of %s, then %s, %s", l, st_name[x], st_name[y], dconfs[c].name))
          {
            int ids[] = {x, y}, len[] = {l, 3};
            joined(ids, len, 2, c, (x + y + c) & 1);
          }
  /* there and back, and over a third */
  for (int x = 0; x < K; x++)
    for (int y = 0; y < K; y++)
      for (int z = 0; z < K; z++)
        for (int c = 0; c < NDCONF; c++)
          if (!same_cfg(x, y) && !same_cfg(y, z) && dconf_ok(x, c) && dconf_ok(y, c) && dconf_ok(z, c) && (vf_thorough || (z == x && c % 3 == (x + y) % 3)) &&
              vf_case("%s, %s, %s, %s", st_name[x], st_name[y], st_name[z], dconfs[c].name))
          {
            int ids[] = {x, y, z}, len[] = {2, 2, 2};
            joined(ids, len, 3, c, (x + y + c) & 1);
          }
  /* configurations that differ in one bit only, anywhere */
  for (int n = 3; n <= 300; n = n * 3 + 1)
    for (int at = 0; at < n; at += n > 60 && !vf_thorough ? 5 : 1)
      if (vf_case("configuration with an extension of %d bytes, another with byte %d changed", n, at))
      {
        P[K2] = with_extension(n, -1, 0);
        P[K2 + 1] = with_extension(n, at, 1 << at % 8);
        int ids[] = {K2, K2 + 1, K2}, len[] = {2, 2, 2};
        joined(ids, len, 3, 0, at & 1);
      }
  return vf_finish();
}
