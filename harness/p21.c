/* P21: binaural output.  Every response length, layout, layout of the responses, number of diffuse blocks, history of
 * sounding frames, response file form; the two channels are compared sample by sample with the loudspeaker signals of
 * the same stream convolved with the responses in double precision. */
#include "vf.h"
#include "streams.h"
#include "layouts.h"
#include "drc.h"
#include "brir.h"

enum { DELAY = 2048 };
typedef struct
{
  int cicp, wd, tgt, effect, resamp;
} opt;
typedef struct
{
  double *x; /* interleaved */
  long n;
  int nch, err, fs, rep_nch, is_bin;
} snd;
static snd play(blob st, const opt *o, const bw_t *br)
{
  static dec_t D;
  snd s = {0};
  dec_defaults(&D);
  D.in.ui_pcm_wd_sz = o->wd ? o->wd : 32;
  D.in.ui_cicp_layout_idx = o->cicp;
  if (o->tgt)
  {
    D.in.ui_target_loudness[0] = 1;
    D.in.ui_target_loudness[1] = o->tgt;
    D.in.ui_effect = o->effect;
  }
  if (o->resamp)
  {
    D.in.enable_resamp = 1;
    D.in.out_samp_freq = o->resamp;
  }
  uint8_t *copy = 0;
  if (br)
  {
    long n = bw_len(br);
    copy = malloc(n + 8);
    memcpy(copy, br->d, n);
    D.in.binaural_flag = 1;
    D.in.ptr_brir_buf = (void *)copy;
    D.in.binaural_data_len = (UWORD32)n;
  }
  s.err = dec_all(&D, st, 0);
  s.rep_nch = s.nch = D.out.i_num_chan;
  s.fs = D.out.i_samp_freq;
  s.is_bin = D.out.is_binaural_rendering;
  if (br)
    s.nch = 2;
  int b = D.in.ui_pcm_wd_sz / 8;
  s.n = s.nch ? D.npcm / b / s.nch : 0;
  s.x = calloc(s.n * s.nch + 1, sizeof(double));
  for (long i = 0; i < s.n * s.nch; i++)
  {
    int32_t v = 0;
    memcpy((uint8_t *)&v + 4 - b, D.pcm + i * b, b);
    s.x[i] = v / 65536.0;
  }
  if (D.npcm % (b * (s.nch ? s.nch : 1)))
    s.n = -1;
  dec_close(&D);
  dec_free(&D);
  free(copy);
  return s;
}
/* loudspeaker signals, transformed */
typedef struct
{
  snd s;
  int N, nf, drop, fs;
  double *re[24], *im[24];
} ref;
static ref ref_of(blob st, int nf, const opt *o, int maxh)
{
  ref r;
  memset(&r, 0, sizeof(r));
  r.s = play(st, o, 0);
  r.nf = nf;
  r.fs = r.s.fs;
  for (r.N = 1024; r.N < nf * 1024 + maxh; r.N *= 2)
    ;
  if (r.s.err || !r.s.n)
    return r;
  double *t = malloc((r.s.n + 1) * sizeof(double));
  for (int c = 0; c < r.s.nch; c++)
  {
    for (long i = 0; i < r.s.n; i++)
      t[i] = r.s.x[i * r.s.nch + c];
    r.re[c] = malloc(r.N * sizeof(double));
    r.im[c] = malloc(r.N * sizeof(double));
    br_spec(t, r.s.n, r.N, r.re[c], r.im[c]);
  }
  free(t);
  return r;
}
static void ref_free(ref *r)
{
  for (int c = 0; c < 24; c++)
    free(r->re[c]), free(r->im[c]);
  free(r->s.x);
}
static int block(int len)
{
  int p = 2;
  while (p < len)
    p *= 2;
  return p;
}
/* what must come out of ear e, into y[N] */
static void model(const ref *f, const brir *r, const int *map, int e, double *y)
{
  int P = block(r->len), N = f->N;
  double *hr = calloc(N, sizeof(double)), *hi = calloc(N, sizeof(double)), *ar = calloc(N, sizeof(double)), *ai = calloc(N, sizeof(double));
  for (int c = 0; c < f->s.nch; c++)
  {
    int p = map ? map[c] : c;
    memset(hr, 0, N * sizeof(double));
    memset(hi, 0, N * sizeof(double));
    for (int t = 0; t < r->len; t++)
      hr[t] = r->h[e][p][t];
    for (int k = 0; k < r->nblk; k++)
      for (int t = 0; t < r->len; t++)
        hr[(k + 1) * P + t] += (double)r->w[p] * r->d[k][e][t];
    br_fft(hr, hi, N, -1);
    for (int i = 0; i < N; i++)
    {
      ar[i] += hr[i] * f->re[c][i] - hi[i] * f->im[c][i];
      ai[i] += hr[i] * f->im[c][i] + hi[i] * f->re[c][i];
    }
  }
  br_fft(ar, ai, N, 1);
  for (int i = 0; i < N; i++)
    y[i] = ar[i] / N;
  free(hr), free(hi), free(ar), free(ai);
}
/* decodes st with the responses and compares; skip: samples not compared; end: samples the loudspeaker output lacks */
static double worst;
static int compare(const char *sig, blob st, const ref *f, const opt *o, const brir *r, const int *map, int skip, int drop, int end, double gain)
{
  bw_t b;
  bw_init(&b);
  br_write(r, &b);
  snd s = play(st, o, &b);
  bw_free(&b);
  int ok = 0, P = block(r->len);
  long want = (f->nf * 1024l + DELAY) / P * P - drop;
  if (s.err)
    vf_fail(sig, "refused: %x", s.err);
  else if (!s.is_bin)
    vf_fail(sig, "not reported as binaural");
  else if (s.n != want)
    vf_fail(sig, "%ld samples, %ld expected", s.n, want);
  else
  {
    double *y = malloc(f->N * sizeof(double)), pk = 0;
    long to = s.n;
    if (to > f->nf * 1024l - drop - end + DELAY)
      to = f->nf * 1024l - drop - end + DELAY;
    ok = 1;
    for (int e = 0; e < 2 && ok; e++)
    {
      model(f, r, map, e, y);
      pk = 0;
      for (long i = 0; i < to - DELAY; i++)
        pk = fmax(pk, fabs(y[i] * gain));
      if (pk < 100)
        vf_count("quiet", 1);
      if (pk > 32000)
      {
        vf_fail("harness", "too loud: %g", pk);
        ok = 0;
      }
      double tol = pk * 4e-6 + 0.01 + (o->wd == 16 ? 1 : 0);
      for (long i = skip; i < to && ok; i++)
      {
        double v = i < DELAY ? 0 : y[i - DELAY] * gain, d = fabs(s.x[i * 2 + e] - v);
        worst = fmax(worst, (d - (o->wd == 16 ? 1 : 0.004)) / (pk + 1));
        if (!(d <= tol))
        {
          vf_fail(sig, "%s ear, sample %ld: %.3f, expected %.3f (peak %.0f)", e ? "right" : "left", i, s.x[i * 2 + e], v, pk);
          ok = 0;
        }
      }
    }
    vf_trans += s.n * 2;
    vf_nontriv += pk > 100;
    vf_outcome((uint64_t)(pk * 1000));
    free(y);
  }
  free(s.x);
  return ok;
}
static uint32_t rnd;
static double rn(void)
{
  rnd = rnd * 1664525u + 1013904223u;
  return (double)(int32_t)rnd / 2147483648.0;
}
/* dense responses, all different */
static void dense(brir *r, int fs, int cicp, int pairs, int len, int nblk, int seed)
{
  memset(r, 0, sizeof(*r));
  rnd = 77 + seed;
  r->fs = fs;
  r->fs_idx = -1;
  r->cicp = cicp;
  r->pairs = pairs;
  r->fmt = 2;
  r->len = len;
  r->nblk = nblk;
  r->fc = 1;
  r->begin = 5;
  double a = 2.5 / sqrt(len * (1.0 + nblk) * pairs);
  for (int p = 0; p < pairs; p++)
  {
    r->w[p] = (float)(0.25 + 0.07 * p);
    for (int e = 0; e < 2; e++)
      for (int t = 0; t < len; t++)
        r->h[e][p][t] = (float)(a * rn());
  }
  for (int k = 0; k < nblk; k++)
    for (int e = 0; e < 2; e++)
      for (int t = 0; t < len; t++)
        r->d[k][e][t] = (float)(a * rn());
}
/* channels of a layout, the first frame silent; mask: bits of frames that sound, by 8 bits */
static blob stream(int cicp, int fsi, int nf, int gain, uint64_t mask, int tgt)
{
  sb_t *s = sb_new();
  int n = sx_cicp_nch(cicp);
  char els[32] = {0};
  memset(els, 'S', n);
  sx_layout(s, cicp, els);
  s->cfg.fs_idx = fsi;
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < nf; f++)
  {
    for (int c = 0; c < n; c++)
    {
      fd_ch *x = &s->ch[c];
      x->win = W_LONG;
      x->max_sfb = gold_nsfb_l[fsi];
      x->arith_reset = 1;
      sx_fill(x, fsi, 300 + f * 32 + c, f && (mask >> (f % 64) & 1) ? 40 : 0);
      fd_gain(x, gain);
    }
    sb_frame(s, 1);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}
static const int lays[] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20};
#define NLAY ((int)(sizeof(lays) / sizeof(lays[0])))
static brir R;
static const opt plain = {0};

static int in_list(int v, const int *l, int n)
{
  for (int i = 0; i < n; i++)
    if (l[i] == v)
      return 1;
  return 0;
}
static void lengths(void)
{
  blob st = {0};
  ref f;
  static const int some[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 441, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 6000, 8191, 8192};
  for (int fmt = 0; fmt <= 2; fmt += 2)
    for (int len = 1; len <= (fmt ? 8192 : 1024); len++)
      if (vf_thorough ? len <= 2100 || len % 16 < 2 || len > 8180 : in_list(len, some, sizeof(some) / sizeof(some[0])))
        if (vf_case("length %d form %d", len, fmt))
        {
          if (!st.d)
          {
            st = stream(2, 4, 22, 160, ~0ull, 0);
            f = ref_of(st, 22, &plain, 8192);
          }
          dense(&R, 44100, 2, 2, len, 0, len);
          R.fmt = fmt;
          R.name = len % 128;
          compare("length", st, &f, &plain, &R, 0, 0, 0, 0, 1);
        }
}
static void blocks(void)
{
  static const int some[] = {2, 64, 500, 1024, 2048, 4096, 8192};
  for (int nb = 0; nb < 3; nb++)
    for (int l = 0; l < 7; l++)
      for (int k = 0; k < 3; k++)
        if (vf_case("%d blocks of %d, layout %d", nb, some[l], lays[k * 5]))
        {
          opt o = {0};
          int cicp = lays[k * 5];
          blob st = stream(cicp, 4, 36, 150, ~0ull, 0);
          ref f = ref_of(st, 36, &o, 3 * 8192);
          dense(&R, 44100, cicp, f.s.nch, some[l], nb, 5 * l + nb);
          compare("blocks", st, &f, &o, &R, 0, 0, 0, 0, 1);
          ref_free(&f);
          free(st.d);
        }
}
static void layouts(void)
{
  for (int a = 0; a < NLAY; a++)
    for (int fsi = 3; fsi < (vf_thorough ? 7 : 5); fsi++)
      if (vf_case("layout %d, rate %d", lays[a], fsi))
      {
        static const int hz[] = {0, 0, 0, 48000, 44100, 32000, 24000};
        blob st = stream(lays[a], fsi, 20, 140, ~0ull, 0);
        ref f = ref_of(st, 20, &plain, 8192);
        if (f.s.err)
          vf_fail("layout", "not decoded: %x", f.s.err);
        else
        {
          dense(&R, hz[fsi], lays[a], f.s.nch, a & 1 ? 700 : 3000, 0, a);
          if (a % 3 == 0)
            R.fs_idx = fsi;
          compare("layout", st, &f, &plain, &R, 0, 0, 0, fsi == 3 ? 240 : 0, 1);
        }
        ref_free(&f);
        free(st.d);
      }
}
/* every layout of the responses for every layout of the loudspeakers: by the places of the loudspeakers */
static void places(void)
{
  for (int a = 0; a < NLAY; a++)
    for (int c = 0; c < NLAY; c++)
      if (a != c && vf_case("layout %d, responses for %d", lays[a], lays[c]))
      {
        int map[24], n = sx_cicp_nch(lays[a]), all = 1;
        for (int i = 0; i < n; i++)
        {
          const spk *p = &lay[lays[a]][i];
          map[i] = find(lays[c], p->az, p->el, p->lfe);
          for (int k = 0; k < sx_cicp_nch(lays[c]) && map[i] < 0 && p->lfe; k++)
            if (lay[lays[c]][k].lfe)
              map[i] = k;
          all &= map[i] >= 0;
        }
        blob st = stream(lays[a], 4, all ? 8 : 1, 140, ~0ull, 0);
        dense(&R, 44100, lays[c], sx_cicp_nch(lays[c]), all ? 200 + 7 * a : 1 + c, c & 1, a * 20 + c);
        if (all)
        {
          ref f = ref_of(st, 8, &plain, 3 * 1024);
          compare("places", st, &f, &plain, &R, map, 0, 0, 0, 1);
          ref_free(&f);
        }
        else
        {
          bw_t b;
          bw_init(&b);
          br_write(&R, &b);
          snd s = play(st, &plain, &b);
          if (!s.err || s.n)
            vf_fail("places", "responses for other loudspeakers accepted: %x, %ld samples", s.err, s.n);
          vf_nontriv++;
          vf_outcome(s.err);
          free(s.x);
          bw_free(&b);
        }
        free(st.d);
      }
}
/* every history of sounding and silent frames */
static void histories(void)
{
  enum { NF = 9 };
  static const int len[] = {300, 1024, 2000, 7000};
  for (int l = 0; l < 4; l++)
    for (int m = 1; m < 1 << (NF - 1); m += vf_thorough ? 1 : 3 + 2 * l)
      if (vf_case("length %d, frames %x sound", len[l], m))
      {
        blob st = stream(2, 4, NF + 9, 160, (uint64_t)m << 1, 0);
        ref f = ref_of(st, NF + 9, &plain, 3 * 8192);
        dense(&R, 44100, 2, 2, len[l], m % 3, m);
        compare("history", st, &f, &plain, &R, 0, 0, 0, 0, 1);
        ref_free(&f);
        free(st.d);
      }
}
/* word sizes; other layouts played than coded; loudness; all with the rates the responses are given by */
static void ways(void)
{
  static const int hz[] = {0, 0, 0, 48000, 44100, 32000, 24000, 22050, 16000};
  static const int src[] = {1, 2, 6, 12}, tgt[] = {0, 1, 2, 5, 6, 7, 9, 10, 12, 14, 16, 19};
  for (int w = 16; w <= 32; w += 8)
    for (int a = 0; a < 4; a++)
      for (int t = 0; t < 12; t++)
        for (int fsi = 3; fsi < 5; fsi++)
          for (int by = 0; by < 2; by++)
            if ((vf_thorough || (a + t + fsi + by + w / 8) % 3 == 0) && src[a] != tgt[t] && vf_case("%d bits, layout %d to %d, rate %d by %s", w, src[a], tgt[t], hz[fsi], by ? "index" : "number"))
            {
              opt o = {.wd = w, .cicp = tgt[t]};
              blob st = stream(src[a], fsi, 14, 140, ~0ull, 0);
              opt o32 = o;
              o32.wd = 32;
              ref f = ref_of(st, 14, &o32, 4096);
              int out = tgt[t] ? tgt[t] : src[a];
              dense(&R, hz[fsi], out, f.s.nch, 600 + t, t & 1, t);
              R.fs_idx = by ? fsi : -1;
              compare("way", st, &f, &o, &R, 0, 0, tgt[t] ? 256 : 0, fsi == 3 ? 240 : 0, 1);
              ref_free(&f);
              free(st.d);
            }
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int by = 3; by <= 8; by++)
      for (int k = 0; k < 2; k++)
        if (vf_case("stream at %d, responses at %d by %s", hz[fsi], hz[by], k ? "index" : "number"))
        {
          blob st = stream(2, fsi, fsi == by ? 10 : 1, 150, ~0ull, 0);
          dense(&R, hz[by], 2, 2, fsi == by ? 444 : 9, 1, 3);
          R.fs_idx = k ? by : -1;
          if (fsi == by)
          {
            ref f = ref_of(st, 10, &plain, 4096);
            compare("rate", st, &f, &plain, &R, 0, 0, 0, fsi == 3 ? 240 : 0, 1);
            if (f.fs != hz[fsi])
              vf_fail("rate", "reported as %d", f.fs);
            ref_free(&f);
          }
          else
          {
            bw_t b;
            bw_init(&b);
            br_write(&R, &b);
            snd s = play(st, &plain, &b);
            if (!s.err || s.n)
              vf_fail("rate", "responses at another rate accepted: %x, %ld samples", s.err, s.n);
            vf_nontriv++;
            free(s.x);
            bw_free(&b);
          }
          free(st.d);
        }
  /* a rate asked for does not change what is convolved, and the rate reported is that of the samples */
  for (int fsi = 3; fsi <= 8; fsi++)
    for (int q = 0; q < 2; q++)
      if (vf_case("stream at %d, %d asked for", hz[fsi], q ? 44100 : 48000))
      {
        blob st = stream(2, fsi, 10, 150, ~0ull, 0);
        opt o = {.resamp = q ? 44100 : 48000};
        dense(&R, hz[fsi], 2, 2, 444, 1, 3);
        ref f = ref_of(st, 10, &plain, 4096);
        compare("asked", st, &f, &o, &R, 0, 0, 0, fsi == 3 ? 240 : 0, 1);
        bw_t b;
        bw_init(&b);
        br_write(&R, &b);
        snd s = play(st, &o, &b);
        if (s.fs != hz[fsi])
          vf_fail("asked", "samples at %d reported as %d", hz[fsi], s.fs);
        free(s.x);
        bw_free(&b);
        ref_free(&f);
        free(st.d);
      }
  for (int n = 0; n < 256; n++)
    if (vf_case("file name of %d letters", n))
    {
      blob st = stream(2, 4, 6, 150, ~0ull, 0);
      dense(&R, 44100, 2, 2, 100, 0, n);
      R.name = n;
      ref f = ref_of(st, 6, &plain, 4096);
      compare("name", st, &f, &plain, &R, 0, 0, 0, 0, 1);
      ref_free(&f);
      free(st.d);
    }
}
/* several representations: the one at the rate of the stream and for its loudspeakers */
static void representations(void)
{
  static brir many[3];
  for (int n = 2; n <= 3; n++)
    for (int k = 0; k < n; k++)
      for (int by = 0; by < 2; by++)
        if (vf_case("%d representations, number %d fits, others differ in %s", n, k, by ? "rate" : "layout"))
        {
          blob st = stream(2, 4, 6, 150, ~0ull, 0);
          for (int i = 0; i < n; i++)
            dense(&many[i], by && i != k ? 48000 : 44100, !by && i != k ? 1 : 2, !by && i != k ? 1 : 2, 100 + i, 0, i);
          bw_t b;
          bw_init(&b);
          br_file(many, n, &b);
          ref f = ref_of(st, 6, &plain, 4096);
          snd s = play(st, &plain, &b);
          const char *sig = k < n - 1 ? "not-last" : "last";
          if (s.err || s.n <= DELAY)
            vf_fail(sig, "refused: %x", s.err);
          else
          {
            double *y = malloc(f.N * sizeof(double));
            model(&f, &many[k], 0, 0, y);
            for (long i = DELAY; i < s.n; i++)
              if (!(fabs(s.x[i * 2] - y[i - DELAY]) < 0.1))
              {
                vf_fail(sig, "sample %ld: %g, expected %g", i, s.x[i * 2], y[i - DELAY]);
                break;
              }
            vf_nontriv++;
            vf_trans += s.n;
            free(y);
          }
          free(s.x);
          bw_free(&b);
          ref_free(&f);
          free(st.d);
        }
}
/* any content: objects, channels with objects, multichannel coding, gain control, to the layouts they are for */
static void contents(void)
{
  static const int hz[] = {48000, 44100, 32000, 24000, 22050, 16000};
  static const int tg[] = {0, 2, 6, 16, 19};
  st_nonoise = 0;
  for (int id = 0; id < ST_NBASE; id++)
    for (int t = 0; t < 5; t++)
      if (vf_case("%s to layout %d", st_title(id), tg[t]))
      {
        int nf = 12, len = 150 + 300 * t;
        blob st = st_build(id, nf);
        opt o = {.cicp = tg[t]};
        ref f = ref_of(st, nf, &o, 4096);
        if (f.s.err || !f.s.n)
          vf_count("not decoded", 1);
        else
        {
          int c = tg[t] ? tg[t] : f.s.nch == 1 ? 1 : f.s.nch == 2 ? 2 : f.s.nch == 6 ? 6 : f.s.nch == 8 ? 12 : 19, i = 0;
          double pk = 0;
          for (long k = 0; k < f.s.n * f.s.nch; k++)
            pk = fmax(pk, fabs(f.s.x[k]));
          if (pk > 29000)
            vf_fail("harness", "too loud: %g", pk);
          while (i < 5 && hz[i] != f.fs)
            i++;
          dense(&R, f.fs, c, f.s.nch, len, 0, id * 8 + t);
          int end = i == 0 ? 240 : 0;
          compare("content", st, &f, &o, &R, 0, DELAY + len, (int)(nf * 1024l - f.s.n - end), end, 1);
        }
        ref_free(&f);
        free(st.d);
      }
}
/* a target loudness */
static blob loud(int value, int drc, int cicp)
{
  sb_t *s = sb_new();
  bw_t lb, cb;
  bw_init(&lb);
  bw_init(&cb);
  sx_layout(s, cicp, cicp == 2 ? "SS" : "SSSLSS");
  s->cfg.fs_idx = 4;
  dr_cfg dc;
  memset(&dc, 0, sizeof(dc));
  if (drc)
  {
    dc.nch = sx_cicp_nch(cicp);
    dc.ngs = -1;
    sy_el *e = sy_add_el(&s->cfg, EL_EXT);
    e->ext_type = EXT_DRC;
    dr_put_cfg(&cb, &dc);
    bw_align(&cb);
    e->ext_cfg = cb.d;
    e->ext_cfg_len = bw_len(&cb);
  }
  ld_info li = {0, 0, 0, 0, -1, -1, 1, {{1, value, 2, 3}}};
  ld_set(&lb, &li, 1, 0, -1, 0);
  bw_align(&lb);
  s->cfg.has_ext = 1;
  bw_init(&s->cfg.cfgext);
  bw_esc(&s->cfg.cfgext, 0, 2, 4, 8);
  bw_esc(&s->cfg.cfgext, 2, 4, 8, 16);
  bw_esc(&s->cfg.cfgext, bw_len(&lb), 4, 8, 16);
  bw_bytes(&s->cfg.cfgext, lb.d, bw_len(&lb));
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < 12; f++)
  {
    for (int c = 0; c < s->nch; c++)
    {
      fd_ch *x = &s->ch[c];
      x->win = W_LONG;
      x->max_sfb = c == 3 ? 3 : gold_nsfb_l[4];
      x->arith_reset = 1;
      sx_fill(x, 4, 500 + f * 32 + c, f ? 40 : 0);
      fd_gain(x, 132);
    }
    sb_frame(s, 1);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  bw_free(&lb);
  bw_free(&cb);
  return b;
}
static void loudness(void)
{
  static const int val[] = {80, 120, 150}, tg[] = {64, 96, 100};
  for (int v = 0; v < 3; v++)
    for (int t = 0; t < 3; t++)
      for (int drc = 0; drc < 2; drc++)
        for (int c = 2; c <= 6; c += 4)
          if (vf_case("loudness %d, target %d%s, layout %d", val[v], tg[t], drc ? ", gain control element" : "", c))
          {
            blob st = loud(val[v], drc, c);
            opt o = {.tgt = tg[t], .effect = 0};
            ref f = ref_of(st, 12, &o, 4096), g = ref_of(st, 12, &plain, 4096);
            double a = 0, b = 0;
            for (long i = 0; i < f.s.n * f.s.nch; i++)
              a += f.s.x[i] * f.s.x[i], b += g.s.x[i] * g.s.x[i];
            vf_count(fabs(a / b - 1) > 1e-3 ? "level changed" : "level kept", 1);
            dense(&R, 44100, c, f.s.nch, 333, 1, 9);
            compare("loudness", st, &f, &o, &R, 0, 0, (int)(12 * 1024 - f.s.n), 0, 1);
            ref_free(&f);
            ref_free(&g);
            free(st.d);
          }
}
/* a second configuration within the stream: the first once more changes nothing, another starts anew */
static void again(void)
{
  static const int lay[] = {1, 2, 6, 12}, len[] = {40, 333, 2000};
  for (int a = 0; a < 4; a++)
    for (int b = 0; b < 4; b++)
      for (int t = 0; t < 3; t++)
        for (int l = 0; l < 3; l++)
          if (vf_case("layout %d, then %d, to %d, length %d", lay[a], lay[b], t == 2 ? 6 : t * 2, len[l]))
          {
            opt o = {.cicp = t == 2 ? 6 : t * 2};
            int c = o.cicp ? o.cicp : a == b ? lay[a] : 12;
            blob s[3] = {stream(lay[a], 4, 10, 150, ~0ull, 0), stream(lay[b], 4, 10, 140, ~0ull, 0)};
            s[2].n = s[0].n + s[1].n;
            s[2].d = malloc(s[2].n);
            memcpy(s[2].d, s[0].d, s[0].n);
            memcpy(s[2].d + s[0].n, s[1].d, s[1].n);
            dense(&R, 44100, c, sx_cicp_nch(c), len[l], l, 9);
            if (a == b)
            {
              ref f = ref_of(s[2], 20, &o, 8192);
              compare("again", s[2], &f, &o, &R, 0, 0, (int)(20 * 1024 - f.s.n), 0, 1);
              ref_free(&f);
            }
            else
            {
              bw_t w;
              bw_init(&w);
              br_write(&R, &w);
              snd x[3];
              for (int i = 0; i < 3; i++)
                x[i] = play(s[i], &o, &w);
              if (x[0].err || x[1].err || x[2].err)
                vf_fail("anew", "not decoded: %x %x %x", x[0].err, x[1].err, x[2].err);
              else if (x[2].n != x[0].n + x[1].n || x[0].n < 9000)
                vf_fail("anew", "%ld samples of %ld and %ld", x[2].n, x[0].n, x[1].n);
              else if (memcmp(x[2].x, x[0].x, x[0].n * 16) || memcmp(x[2].x + 2 * x[0].n, x[1].x, x[1].n * 16))
                vf_fail("anew", "differs from the streams one by one");
              vf_nontriv++;
              vf_trans += x[2].n * 2;
              for (int i = 0; i < 3; i++)
                free(x[i].x);
              bw_free(&w);
            }
            for (int i = 0; i < 3; i++)
              free(s[i].d);
          }
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  lengths();
  blocks();
  layouts();
  places();
  histories();
  ways();
  representations();
  contents();
  loudness();
  again();
  fprintf(stderr, "worst %g\n", worst);
  return vf_finish();
}
