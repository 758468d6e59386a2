/* P09: resampling.  White box: an impulse at every position of two frames for every ratio, tones over the band, steps;
 * whole decoder: every rate x ratio x layout x word size, signals differing per channel and frame, against the same
 * stream without resampling put through the model (sample and hold, one symmetric filter, decimation). */
#include "vf.h"
#include "streams.h"

/* left halves of the two symmetric filters: for ratio 2 and for the second stage of 3/2; for ratio 3 */
static const double half[2][30] = {
    {6.6318e-4, 5.9298e-4, -7.9957e-4, -8.0299e-4, 1.1491e-3, 1.2169e-3, -1.7485e-3, -1.8758e-3, 2.6390e-3, 2.8283e-3, -3.8702e-3, -4.1348e-3, 5.5069e-3, 5.8773e-3, -7.6415e-3, -8.1757e-3, 1.0418e-2, 1.1222e-2, -1.4082e-2, -1.5352e-2, 1.9088e-2, 2.1222e-2, -2.6395e-2, -3.0304e-2, 3.8374e-2, 4.6713e-2, -6.2869e-2, -8.7788e-2, 1.4968e-1, 4.4865e-1},
    {-4.97022232279335e-4, -9.18613596216878e-4, -4.44825902452182e-4, 7.05250981587193e-4, 1.50700315445066e-3, 8.09458182295440e-4, -1.29785543741278e-3, -2.85178460464026e-3, -0.00155156280148759, 0.00236946564044503, 0.00517024229794912, 0.00279871704229966, -0.00404538116179953, -0.00876978312446251, -0.00474131143327614, 0.00652928741952997, 0.01417585956591372, 0.00771987717882837, -0.01022842931324190, -0.02248652147726131, -0.0124830287732841, 0.0161443044586115, 0.0365819827465015, 0.0211642050455355, -0.0275376273262614, -0.0671682652580574, -0.0432832792329244, 0.0635616057013451, 0.211300236308269, 0.317767795951496}};
static double tap(int f, int k) { return half[f][k < 30 ? k : 59 - k]; }
/* x[0..n): zero before; y: n * up / down samples */
static void model(const double *x, long n, int up, int down, double *y)
{
  long nu = n * up;
  double *u = calloc(nu + 59, sizeof(double)) , *v = u + 59, *z = calloc(nu + 59, sizeof(double)), *w = z + 59;
  for (long i = 0; i < nu; i++)
    v[i] = x[i / up];
  for (long i = 0; i < nu; i++)
    for (int k = 0; k < 60; k++)
      w[i] += tap(up == 3, k) * v[i - k];
  if (down == 1)
    memcpy(y, w, nu * sizeof(double));
  else
    for (long i = 0; i < nu; i += 2)
    {
      double s = 0;
      for (int k = 0; k < 60; k++)
        s += tap(0, k) * w[i - k];
      y[i / 2] = s;
    }
  free(u);
  free(z);
}
static const struct { int up, down, in, out; } ratio[] = {{3, 2, 32000, 48000}, {3, 2, 29400, 44100}, {2, 1, 24000, 48000}, {2, 1, 22050, 44100}, {3, 1, 16000, 48000}, {3, 1, 14700, 44100}};
#ifndef P09_DEC
#include "impeghd_type_def.h"
#include "impeghd_resampler.h"
enum { F = 1024, NF = 4 };
static float in[NF * F], out[NF * F * 3], scr[F * 6];
static double xd[NF * F], yd[NF * F * 3];
static void real(int up, int down)
{
  static ia_resampler_struct R;
  memset(&R, 0, sizeof(R));
  R.fac_up = up;
  R.fac_down = down;
  R.input_length = F;
  R.output_length = F * up / down;
  for (int f = 0; f < NF; f++)
  {
    float x[F]; /* what precedes and follows must not matter */
    memcpy(x, in + f * F, sizeof(x));
    impeghd_resample(&R, x, out + f * F * up / down, scr);
  }
}
static int compare(int up, int down, const char *sig, const char *what, int at)
{
  double sc = 0;
  for (int i = 0; i < NF * F; i++)
    xd[i] = in[i], sc = fmax(sc, fabs(xd[i]));
  model(xd, NF * F, up, down, yd);
  for (int i = 0; i < NF * F * up / down; i++)
    if (fabs(out[i] - yd[i]) > 4e-6 * sc)
    {
      vf_fail(sig, "%s %d: output %d (frame %d) is %.8g instead of %.8g", what, at, i, i / (F * up / down), out[i], yd[i]);
      return 0;
    }
  vf_trans += NF * F * up / down;
  return 1;
}
static void impulses(int up, int down, int from, int to)
{
  for (int p = from; p < to; p++)
  {
    memset(in, 0, sizeof(in));
    in[p] = 1;
    real(up, down);
    int lo = NF * F * 3, hi = -1;
    for (int i = 0; i < NF * F * up / down; i++)
      if (out[i] != 0)
      {
        if (i < lo)
          lo = i;
        hi = i;
      }
    /* around the place, within the filters' length */
    if (lo < p * up / down - 1 || hi > (p + 1) * up / down + (down == 1 ? 60 : 60))
    {
      vf_fail("spread", "impulse at %d comes out over %d..%d", p, lo, hi);
      return;
    }
    if (!compare(up, down, "impulse", "impulse at", p))
      return;
  }
  vf_nontriv++;
}
static void tones(int up, int down, int k0, int k1)
{
  int N = NF * F * up / down, T0 = N / 2;
  for (int k = k0; k < k1; k++)
  {
    double w = M_PI * (k + 0.37) / 64; /* of the input */
    for (int i = 0; i < NF * F; i++)
      in[i] = (float)(1000 * cos(w * i + 0.3));
    real(up, down);
    if (!compare(up, down, "tone", "tone", k))
      return;
    double wo = w * down / up, cc = 0, ss = 0, cs = 0, yc = 0, ys = 0, r = 0;
    for (int i = T0; i < N; i++)
    {
      double c = cos(wo * i), s = sin(wo * i);
      cc += c * c, ss += s * s, cs += c * s, yc += out[i] * c, ys += out[i] * s;
    }
    double det = cc * ss - cs * cs, a = (yc * ss - ys * cs) / det, b = (ys * cc - yc * cs) / det;
    for (int i = T0; i < N; i++)
    {
      double e = out[i] - a * cos(wo * i) - b * sin(wo * i);
      r += e * e;
    }
    double lev = 20 * log10(sqrt(a * a + b * b) / 1000), img = 10 * log10(r / (N - T0) / 500000 + 1e-20);
    if (getenv("P09_RANGE"))
      fprintf(stderr, "%d/%d f=%.3f level %.2f rest %.1f\n", up, down, w / M_PI, lev, img);
    if (k < 51 && (lev > 0.4 || lev < -3.6 * (w / M_PI) * (w / M_PI) - 0.2))
    {
      vf_fail("level", "a tone at %.3f of the band comes out at %.2f dB", w / M_PI, lev);
      return;
    }
    if (k < 51 && img > -55)
    {
      vf_fail("images", "a tone at %.3f of the band leaves images at %.1f dB", w / M_PI, img);
      return;
    }
  }
  vf_nontriv++;
}
static void micro(void)
{
  for (int r = 0; r < 6; r += 2)
  {
    int up = ratio[r].up, down = ratio[r].down;
    for (int p = 0; p < 2 * F + 64; p += 64)
      if (vf_case("ratio %d/%d, impulses at %d to %d", up, down, p, p + 63))
        impulses(up, down, p, p + 64);
    for (int k = 0; k < 64; k += 8)
      if (vf_case("ratio %d/%d, tones %d to %d of 64", up, down, k, k + 7))
        tones(up, down, k, k + 8);
  }
}
#else
enum { NFR = 9 };
static blob mk(int cicp, const char *els, int hz, int fsi, int var)
{
  sb_t *s = sb_new();
  sx_layout(s, cicp, els);
  s->cfg.fs_idx = var ? 31 : fsi;
  s->cfg.fs_hz = hz;
  s->cfg.fs_as = fsi;
  mhas_sync(&s->o);
  sb_config(s);
  sb_channels(s);
  for (int f = 0; f < NFR; f++)
  {
    for (int c = 0; c < s->nch; c++)
    {
      fd_ch *x = &s->ch[c];
      int lfe = 0, k = 0;
      for (const char *p = els; *p; k += *p == 'P' ? 2 : 1, p++)
        lfe |= *p == 'L' && k == c;
      x->win = W_LONG;
      x->max_sfb = lfe ? 3 : f % 3 == 2 ? 10 : gold_nsfb_l[fsi];
      x->arith_reset = 1;
      sx_fill(x, fsi, f * 50 + c, f == 5 && c % 2 == 0 ? 0 : 50);
      fd_gain(x, (f + c) % 4 == 3 ? 124 : 150);
    }
    for (int e = 0; e < s->cfg.nel; e++)
      s->cpe[e].common_window = 0;
    sb_frame(s, f == 0);
  }
  blob b;
  b.d = sb_take(s, &b.n);
  sb_del(s);
  return b;
}
static int per_call, first_less;
static void watch(dec_t *d, int executing)
{
  int less = first_less;
  if (executing && d->out.num_out_bytes)
    first_less = 0;
  if (executing && d->out.num_out_bytes && d->out.num_out_bytes != per_call - less && per_call > 0)
  {
    vf_fail("call-length", "call %d puts out %d bytes instead of %d", d->n_exec, d->out.num_out_bytes, per_call - less);
    per_call = -1;
  }
}
static void whole(int r, int cicp, const char *els, int target, int word, int var)
{
  static const int fsis[] = {5, 5, 6, 7, 8, 8};
  blob b = mk(cicp, els, ratio[r].in, fsis[r], var);
  int lead = target ? 256 : 0;
  dec_t A, B;
  dec_defaults(&A);
  A.in.ui_pcm_wd_sz = 32;
  A.in.ui_cicp_layout_idx = target;
  int e = dec_all(&A, b, 0), nch = A.out.i_num_chan;
  dec_close(&A);
  if (e || A.out.i_samp_freq != ratio[r].in)
    vf_fail("plain", "without resampling: code %x, %d Hz", e, A.out.i_samp_freq);
  dec_defaults(&B);
  B.in.ui_pcm_wd_sz = word;
  B.in.ui_cicp_layout_idx = target;
  B.in.enable_resamp = 1;
  B.in.out_samp_freq = ratio[r].out;
  per_call = 1024 * ratio[r].up / ratio[r].down * nch * (word / 8);
  first_less = lead * nch * (word / 8); /* the converter's delay is left out, counted at the output's rate */
  dec_watch = watch;
  int e2 = dec_all(&B, b, 0);
  dec_watch = 0;
  dec_close(&B);
  long n = A.npcm / 4 / nch, m = B.npcm / (word / 8) / nch;
  if (e2 || B.out.i_num_chan != nch)
    vf_fail("refused", "with resampling: code %x, %d channels", e2, B.out.i_num_chan);
  else if (B.out.i_samp_freq != ratio[r].out)
    vf_fail("rate", "%d Hz reported", B.out.i_samp_freq);
  else if (m != (n + lead) * ratio[r].up / ratio[r].down - lead)
    vf_fail("length", "%ld samples from %ld", m, n);
  else
  {
    double *x = calloc(n + lead, sizeof(double)), *y = malloc((n + lead) * 3 * sizeof(double));
    long known = lead ? (lead * ratio[r].up + 60) / ratio[r].down + 60 - lead : 0;
    int ok = 1, loud = 0;
    for (int c = 0; c < nch && ok; c++)
    {
      double sc = 0;
      for (long t = 0; t < n; t++)
        x[t + lead] = ((int32_t *)A.pcm)[t * nch + c] / 65536.0, sc = fmax(sc, fabs(x[t + lead]));
      loud += sc > 100; if (getenv("P09_RANGE")) fprintf(stderr, "ch %d of %d: max %.1f\n", c, nch, sc);
      if (sc > 28000)
        vf_fail("harness", "too loud");
      model(x, n + lead, ratio[r].up, ratio[r].down, y);
      for (long t = known; t < m && ok; t++)
      {
        const uint8_t *p = (uint8_t *)B.pcm + (t * nch + c) * (word / 8);
        double v = 0, tol = 6e-6 * sc + 3.0 / 65536;
        if (word == 16)
          v = *(int16_t *)p, tol += 1;
        else if (word == 24)
          v = ((int32_t)(p[0] << 8 | p[1] << 16 | (uint32_t)p[2] << 24) >> 8) / 256.0, tol += 1.0 / 256;
        else
          v = *(int32_t *)p / 65536.0;
        if (fabs(v - y[t + lead]) > tol)
        {
          vf_fail("sample", "channel %d output %ld (call %ld) is %.5f instead of %.5f", c, t, t / (1024 * ratio[r].up / ratio[r].down), v, y[t + lead]);
          ok = 0;
        }
      }
      vf_trans += m;
    }
    if (loud)
      vf_nontriv++;
    free(x);
    free(y);
  }
  vf_outcome(vf_hash(B.pcm, B.npcm, r));
  dec_free(&A);
  dec_free(&B);
  free(b.d);
}
/* a rate the decoder cannot reach: the stream plays at its own */
static void unreachable(int fsi, int out, int cicp, const char *els, int target)
{
  blob b = mk(cicp, els, 0, fsi, 0);
  dec_t A, B;
  for (int k = 0; k < 2; k++)
  {
    dec_t *d = k ? &B : &A;
    dec_defaults(d);
    d->in.ui_pcm_wd_sz = 24;
    d->in.ui_cicp_layout_idx = target;
    d->in.enable_resamp = k;
    d->in.out_samp_freq = out;
    dec_all(d, b, 0);
    dec_close(d);
  }
  if (A.npcm != B.npcm || memcmp(A.pcm, B.pcm, A.npcm) || A.out.i_samp_freq != B.out.i_samp_freq)
    vf_fail("unreachable", "%ld bytes at %d Hz instead of %ld at %d Hz, or other samples", B.npcm, B.out.i_samp_freq, A.npcm, A.out.i_samp_freq);
  if (A.npcm)
    vf_nontriv++;
  vf_outcome(vf_hash(B.pcm, B.npcm, out));
  dec_free(&A);
  dec_free(&B);
  free(b.d);
}
static void micro(void)
{
  static const struct { int fsi, hz; } rate[] = {{3, 48000}, {4, 44100}, {5, 32000}, {6, 24000}, {7, 22050}, {8, 16000}};
  static const int outs[] = {8000, 11025, 14700, 16000, 22050, 24000, 29400, 32000, 44100, 48000, 64000, 88200, 96000};
  for (int r = 0; r < 6; r++)
    for (int o = 0; o < 13; o++)
    {
      int ok = outs[o] == 48000 && (rate[r].hz == 32000 || rate[r].hz == 24000 || rate[r].hz == 16000);
      ok |= outs[o] == 44100 && rate[r].hz == 22050;
      for (int t = 0; t <= 6 && !ok; t += t ? 4 : 2)
        if ((!t || r < 5) && vf_case("%d Hz, %d asked for, layout 6 into %d", rate[r].hz, outs[o], t))
          unreachable(rate[r].fsi, outs[o], 6, "PSLP", t);
    }
  static const struct { int cicp; const char *els; } l[] = {{1, "S"}, {2, "P"}, {2, "SS"}, {3, "PS"}, {5, "PSP"}, {6, "PSLP"}, {7, "PSLPP"}, {11, "PSLPS"}, {16, "PSLPPP"}, {19, "PSLPPPP"}, {18, "PSLPPPSPS"}};
  for (int r = 0; r < 6; r++)
    for (int k = 0; k < 11; k++)
      for (int w = 16; w <= 32; w += 8)
        for (int var = r % 4 == 1 || r == 5; var < 2; var++)
        {
          if (r == 1 || r == 5) var = 1;
          if (vf_case("%d to %d Hz%s, layout %d as %s, %d bits", ratio[r].in, ratio[r].out, var ? " explicit" : "", l[k].cicp, l[k].els, w))
            whole(r, l[k].cicp, l[k].els, 0, w, var);
        }
  /* behind the layout converter, for the rates it supports */
  for (int r = 0; r < 4; r++)
    for (int k = 0; k < 11; k++)
      for (int t = 1; t <= 19; t++)
        if (r != 1 && sx_cicp_nch(t) && t != 13 && (vf_thorough || (t * 7 + k) % 3 == 0))
          if (vf_case("%d to %d Hz, layout %d into %d", ratio[r].in, ratio[r].out, l[k].cicp, t))
            whole(r, l[k].cicp, l[k].els, t, 32, 0);
}
#endif
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  micro();
  return vf_finish();
}
