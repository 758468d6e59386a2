/* P04: deliveries.  A stream is cut into deliveries in every way of several bounded families; the decoder is driven as
 * documented (data is sent again, with more, when a call asks for it) and must output the same PCM as for one delivery. */
#include "vf.h"
#include "streams.h"

static blob st;
static dec_t *R, *D;
static int cuts[8], ncut; /* absolute positions the deliveries stop at, until more is asked for */
static int fixed;         /* or: this many new bytes per call */
static int deliver(void *self, int space, int call)
{
  dec_t *d = (dec_t *)self;
  (void)call;
  if (fixed)
    return fixed;
  for (int i = 0; i < ncut; i++)
    if (d->pos < cuts[i] || (d->pos == cuts[i] && !d->insuf && d->have > 0))
      return cuts[i] - (int)d->pos;
  return space;
}
static void reference(int conf)
{
  dec_defaults(R);
  dconf_apply(R, &dconfs[conf]);
  int e = dec_all(R, st, 0);
  if (e || R->npcm == 0)
    vf_fail("reference", "whole delivery: code %x, %ld bytes", e, R->npcm);
  dec_close(R);
}
static void one(int conf, const char *what)
{
  dec_defaults(D);
  dconf_apply(D, &dconfs[conf]);
  D->deliver = deliver;
  D->track_inp = 1;
  int e = dec_all(D, st, 0);
  vf_trans += D->n_exec + D->n_init;
  vf_nontriv += D->n_exec + D->n_init > R->n_exec + R->n_init;
  vf_outcome((uint64_t)(D->n_exec * 131 + D->n_init));
  if (e)
    vf_fail("code", "%s: code %x", what, e);
  if (D->fatal)
    vf_fail("fatal", "%s: %d calls returned a fatal code, last %x", what, D->fatal, D->err_exec);
  if (D->bad_consumed)
    vf_fail("consumed", "%s: a call consumed less than nothing or more than it was given", what);
  if (D->inp_changed)
    vf_fail("input-written", "%s: the input buffer was modified", what);
  if (D->nframes != R->nframes || D->npcm != R->npcm)
    vf_fail("length", "%s: %d frames, %ld bytes; whole: %d frames, %ld bytes", what, D->nframes, D->npcm, R->nframes, R->npcm);
  else if (memcmp(D->pcm, R->pcm, R->npcm) || memcmp(D->frame_bytes, R->frame_bytes, R->nframes * sizeof(int)))
    vf_fail("pcm", "%s: output differs from that of one delivery", what);
  if (D->out.i_num_chan != R->out.i_num_chan || D->out.i_samp_freq != R->out.i_samp_freq ||
      D->out.num_speakers != R->out.num_speakers || D->out.cicp_index != R->out.cicp_index)
    vf_fail("info", "%s: stream information differs", what);
  dec_close(D);
  dec_free(D);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  R = (dec_t *)calloc(1, sizeof(*R));
  D = (dec_t *)calloc(1, sizeof(*D));
  char w[96];
  int nf = vf_thorough ? 6 : 3;
  /* single cuts at every byte */
  for (int id = 0; id < ST_ALL; id++)
  {
    blob probe = st_build(id, nf);
    long n = probe.n;
    free(probe.d);
    int blk = 40, stride = !vf_thorough && n > 1000 ? 3 : 1;
    for (int lo = 1; lo < n; lo += blk)
      if (vf_case("single cuts %d..%d of %ld, stream %s", lo, lo + blk - 1, n, st_name[id]))
      {
        st = st_build(id, nf);
        reference(0);
        for (int k = lo + (lo / blk + id) % stride; k < lo + blk && k < n; k += stride)
        {
          ncut = 1;
          cuts[0] = k;
          fixed = 0;
          snprintf(w, sizeof(w), "cut at %d", k);
          one(0, w);
        }
        dec_free(R);
        free(st.d);
      }
  }
  /* fixed numbers of new bytes per call */
  for (int id = 0; id < ST_ALL; id++)
    for (int s = 1; s < (vf_thorough ? 400 : 60); s += s < 12 ? 1 : vf_thorough ? 3 : 7)
      if (vf_case("%d bytes per call, stream %s", s, st_name[id]))
      {
        st = st_build(id, nf);
        int c = (s + id) % NDCONF;
        if (!dconf_ok(id, c))
          c = 7;
        reference(c);
        fixed = s;
        ncut = 0;
        snprintf(w, sizeof(w), "%d bytes per call", s);
        one(c, w);
        fixed = 0;
        dec_free(R);
        free(st.d);
      }
  /* all pairs of cuts within windows placed at the configuration and round the ends of the first two frames */
  for (int id = 0; id < (vf_thorough ? ST_ALL : 3); id++)
    for (int win = 0; win < 3; win++)
    {
      int span = vf_thorough ? 28 : 12;
      for (int a = 0; a < span; a++)
        if (vf_case("pairs of cuts, window %d first %d, stream %s", win, a, st_name[id]))
        {
          st = st_build(id, 3);
          reference(0);
          /* window positions: start, and around the end of frame 1 and 2 found from the reference decoding */
          int base = 1;
          if (win)
          {
            dec_defaults(D);
            D->st = st;
            dec_create(D);
            dec_start(D);
            long used = 0;
            for (int f = 0; f < win; f++)
            {
              dec_exec_call(D);
              dec_consume(D, D->out.i_bytes_consumed);
            }
            used = D->pos - D->have;
            dec_close(D);
            dec_free(D);
            base = (int)used - span / 2;
          }
          for (int b = a + 1; b < span; b++)
          {
            ncut = 2;
            cuts[0] = base + a;
            cuts[1] = base + b;
            snprintf(w, sizeof(w), "cuts at %d and %d", cuts[0], cuts[1]);
            if (cuts[0] > 0 && cuts[1] < st.n)
              one(0, w);
          }
          dec_free(R);
          free(st.d);
        }
    }
  /* the sample streams, larger deliveries */
  static const char *smp[] = {"sine_1khz_000_cicp1.mhas", "sine_1khz_cicp16.mhas", "sine_1khz_cicp19.mhas", "sine_1khz_cicp6.mhas"};
  static const int sz[] = {64, 777, 1000, 2048, 4095, 8192, 30000};
  for (int k = 0; k < 4; k++)
    for (int s = 0; s < 7; s++)
      if (vf_case("%d bytes per call, sample %s", sz[s], smp[k]))
      {
        st = load_sample(smp[k]);
        if (!vf_thorough && st.n > 16000)
          st.n = 16000;
        dec_defaults(R);
        dec_all(R, st, 0);
        dec_close(R);
        dec_defaults(D);
        D->deliver = deliver;
        fixed = sz[s];
        dec_all(D, st, 0);
        fixed = 0;
        vf_trans += D->n_exec;
        if (D->npcm != R->npcm || memcmp(D->pcm, R->pcm, R->npcm))
          vf_fail("pcm", "%d bytes per call: output differs from that of full buffers (%ld, %ld bytes)", sz[s], D->npcm, R->npcm);
        dec_close(D);
        dec_free(D);
        dec_free(R);
        free(st.d);
      }
  return vf_finish();
}
