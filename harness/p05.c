/* P05: the output is a function of stream and parameters.  Enumerated: initial contents of every block x offset of the
 * blocks x what the harness does to scratch, output and the unused rest of the input buffer between calls, at every call. */
#include "vf.h"
#include "streams.h"
enum { CL_NONE, CL_SCRATCH, CL_OUT, CL_INTAIL, CL_ALL, CL_N };
static const char *cl_name[] = {"nothing", "scratch", "output", "rest of the input buffer", "all three"};
static void clobber(dec_t *d, int what, int pat)
{
  ia_mem_info_table *t = d->out.mem_info_table;
  if (what == CL_SCRATCH || what == CL_ALL)
    al_pattern((uint8_t *)t[MEMTYPE_SCRATCH].mem_ptr, t[MEMTYPE_SCRATCH].ui_size, pat);
  if (what == CL_OUT || what == CL_ALL)
    al_pattern((uint8_t *)t[IA_MEMTYPE_OUTPUT].mem_ptr, t[IA_MEMTYPE_OUTPUT].ui_size, pat);
}
static void clobber_in(dec_t *d, int what, int pat)
{
  ia_mem_info_table *t = d->out.mem_info_table;
  if (what == CL_INTAIL || what == CL_ALL)
    al_pattern((uint8_t *)t[IA_MEMTYPE_INPUT].mem_ptr + d->have, d->out.ui_inp_buf_size - d->have, pat);
}
static int g_what, g_pat;
static int deliver(void *self, int space, int call)
{
  (void)call;
  clobber_in((dec_t *)self, g_what, g_pat);
  return space < 900 ? space : 900;
}
static void run(dec_t *d, blob st, const dconf *c, int fill, int off, int what, int pat)
{
  dec_defaults(d);
  dconf_apply(d, c);
  d->al.fill = fill;
  al_offset = off;
  g_what = what;
  g_pat = pat;
  d->st = st;
  d->deliver = deliver;
  d->track_inp = 1;
  dec_create(d);
  int g = 0;
  while (!d->out.ui_init_done && g++ < 1000)
  {
    clobber(d, what, pat);
    dec_init_call(d);
    if (!d->insuf)
      dec_consume(d, d->out.i_bytes_consumed);
  }
  while (!d->eof && g++ < 2000)
  {
    clobber(d, what, pat);
    int before = d->n_exec;
    dec_run(d, 1);
    if (d->n_exec == before)
      break;
  }
  dec_close(d);
  al_offset = 0;
}
static void compare(const dec_t *a, const dec_t *r, const char *w)
{
  if (a->err_create != r->err_create || a->err_init != r->err_init || a->err_exec != r->err_exec || a->fatal != r->fatal)
    vf_fail("codes", "%s: codes %x/%x/%x, before %x/%x/%x", w, a->err_create, a->err_init, a->err_exec, r->err_create,
            r->err_init, r->err_exec);
  if (a->npcm != r->npcm || memcmp(a->pcm, r->pcm, r->npcm))
  {
    long i = 0;
    while (i < a->npcm && i < r->npcm && a->pcm[i] == r->pcm[i])
      i++;
    vf_fail("pcm", "%s: output differs from byte %ld of %ld on", w, i, r->npcm);
  }
  if (a->out.i_num_chan != r->out.i_num_chan || a->out.i_samp_freq != r->out.i_samp_freq ||
      a->out.num_speakers != r->out.num_speakers || a->out.cicp_index != r->out.cicp_index ||
      a->out.spk_layout != r->out.spk_layout ||
      memcmp(a->out.azimuth, r->out.azimuth, sizeof(r->out.azimuth)) || a->out.num_preroll != r->out.num_preroll ||
      memcmp(a->out.elevation, r->out.elevation, sizeof(r->out.elevation)))
    vf_fail("info", "%s: stream information differs", w);
  if (a->inp_changed)
    vf_fail("input-written", "%s: the input buffer was modified", w);
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  dec_t *r = (dec_t *)calloc(1, sizeof(*r)), *d = (dec_t *)calloc(1, sizeof(*d));
  int nf = vf_thorough ? 40 : 16;
  for (int id = 0; id < ST_ALL; id++)
    for (int c = 0; c < NDCONF; c++)
    {
      if (!dconf_ok(id, c) || (!vf_thorough && (c + id) % 2 && c && !(id >= ST_32K && c == 7)))
        continue;
      if (!vf_case("stream %s settings %s", st_title(id), dconfs[c].name))
        continue;
      blob st = st_build(id, nf);
      run(r, st, &dconfs[c], 0, 0, CL_NONE, 0);
      vf_outcome(vf_hash(r->pcm, r->npcm, 0));
      if (r->npcm == 0)
        vf_fail("no-pcm", "nothing decoded: init %x exec %x", r->err_init, r->err_exec);
      char w[160];
      int nfill = vf_thorough ? 7 : 5;
      for (int fill = 1; fill < nfill; fill++)
      {
        snprintf(w, sizeof(w), "memory filled with pattern %d", fill);
        run(d, st, &dconfs[c], fill, 0, CL_NONE, 0);
        compare(d, r, w);
        dec_free(d);
        vf_trans += r->n_exec;
      }
      for (int off = 4; off <= 12; off += 4)
      {
        if (!vf_thorough && off != 8)
          continue;
        snprintf(w, sizeof(w), "blocks at offset %d", off);
        run(d, st, &dconfs[c], 0, off, CL_NONE, 0);
        compare(d, r, w);
        dec_free(d);
      }
      for (int what = 1; what < CL_N; what++)
        for (int pat = 1; pat < (vf_thorough ? 5 : 2); pat++)
        {
          int p = vf_thorough ? pat : 1 + (what + id) % 4;
          snprintf(w, sizeof(w), "%s overwritten between calls with pattern %d", cl_name[what], p);
          run(d, st, &dconfs[c], 0, 0, what, p);
          compare(d, r, w);
          dec_free(d);
          vf_trans += r->n_exec;
          vf_nontriv++;
        }
      dec_free(r);
      free(st.d);
    }
  return vf_finish();
}
