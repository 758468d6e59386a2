/* P27: raw access units with the configuration in front against the packet stream, under every grouping of access units
 * into calls. */
#include "vf.h"
#include "streams.h"
#include "packets.h"

enum { NF = 8, ND = 5 };
static long ends[NF + 2]; /* end of the configuration, then of every access unit */
static int sched[ND], nend;
/* so many whole access units in the buffer at this call: sched[] for the first calls, one from then on */
static int deliver(void *self, int space, int call)
{
  dec_t *d = self;
  int want = call < ND ? sched[call] : 1, k = 0;
  long at = d->pos - d->have; /* where the buffer starts */
  while (k < nend && ends[k] <= at)
    k++;
  /* k: the first unit not yet consumed (0: the configuration) */
  int last = k == 0 ? want : k + want - 1;
  if (last >= nend)
    last = nend - 1;
  long n = ends[last] - d->pos;
  return n > space ? space : n < 0 ? 0 : (int)n;
}
static void compare(int id, int c, int wd, const int *fix)
{
  blob b = st_build(id, NF), raw = {0, 0};
  parts p = take_apart(b);
  raw.d = malloc(b.n);
  nend = 0;
  memcpy(raw.d, p.cfg.pay, p.cfg.npay);
  raw.n = p.cfg.npay;
  ends[nend++] = raw.n;
  for (int f = 0; f < p.nfr; f++)
  {
    memcpy(raw.d + raw.n, p.fr[f].pay, p.fr[f].npay);
    raw.n += p.fr[f].npay;
    ends[nend++] = raw.n;
  }
  dec_t A, B;
  dec_defaults(&A);
  dconf_apply(&A, &dconfs[c]);
  A.in.ui_pcm_wd_sz = wd;
  int ea = dec_all(&A, b, 0);
  dec_close(&A);
  if (ea || !A.npcm)
    vf_fail("packets", "the packet stream: code %x, %ld bytes", ea, A.npcm);
  int lo = fix ? 0 : 0, n = 1;
  for (int i = 1; i < ND; i++)
    n *= 3;
  n *= 3;
  for (int m = lo; m < (fix ? 1 : n); m++)
  {
    for (int i = 0, r = m; i < ND; i++, r /= 3)
      sched[i] = fix ? fix[i] : r % 3 + (i > 0);
    dec_defaults(&B);
    dconf_apply(&B, &dconfs[c]);
    B.in.ui_pcm_wd_sz = wd;
    B.in.ui_mhas_flag = 0;
    B.in.ui_raw_flag = 1;
    B.deliver = deliver;
    int eb = dec_all(&B, raw, 0);
    int nc = B.out.i_num_chan, fs = B.out.i_samp_freq;
    dec_close(&B);
    int bad = 0;
    if (eb || nc != A.out.i_num_chan || fs != A.out.i_samp_freq || B.npcm != A.npcm)
      bad = 1, vf_fail("raw", "grouping %d%d%d%d%d: code %x, %d channels, %d Hz, %ld bytes instead of %d, %d, %ld", sched[0], sched[1], sched[2], sched[3], sched[4], eb, nc, fs, B.npcm, A.out.i_num_chan, A.out.i_samp_freq, A.npcm);
    else if (memcmp(A.pcm, B.pcm, A.npcm))
    {
      long i = 0;
      while (A.pcm[i] == B.pcm[i])
        i++;
      bad = 1, vf_fail("raw", "grouping %d%d%d%d%d: byte %ld of %ld differs", sched[0], sched[1], sched[2], sched[3], sched[4], i, A.npcm);
    }
    vf_outcome(vf_hash(B.pcm, B.npcm, m));
    vf_trans += B.n_exec;
    dec_free(&B);
    if (bad)
      break;
  }
  if (A.npcm)
    vf_nontriv++;
  dec_free(&A);
  free(b.d);
  free(raw.d);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  static const int one[ND] = {0, 1, 1, 1, 1}, all[ND] = {8, 8, 8, 8, 8}, two[ND] = {1, 2, 2, 2, 2};
  for (int id = 0; id < ST_ALL; id++)
    for (int c = 0; c < NDCONF; c++)
      if (dconf_ok(id, c))
      {
        for (int w = 16; w <= 32; w += 8)
        {
          if (vf_case("%s, %s, %d bits, one access unit per call", st_name[id], dconfs[c].name, w))
            compare(id, c, w, one);
          if (vf_case("%s, %s, %d bits, everything at once", st_name[id], dconfs[c].name, w))
            compare(id, c, w, all);
          if (vf_case("%s, %s, %d bits, two at a time", st_name[id], dconfs[c].name, w))
            compare(id, c, w, two);
        }
        if ((vf_thorough || c == 0 || c == 2) && vf_case("%s, %s, every grouping", st_name[id], dconfs[c].name))
          compare(id, c, dconfs[c].wd, 0);
      }
  return vf_finish();
}
