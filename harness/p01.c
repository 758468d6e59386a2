/* P01: allocation failures and releases.  Enumerated: failing allocation index x memory contents x settings; and, for
 * every stage of the life of a decoder (after creation, each init call, each execute call) the deletion there. */
#include "vf.h"
#include "streams.h"

static void check_deleted(dec_t *d, const char *when)
{
  int live = al_live(&d->al), g = al_check_guards(&d->al);
  if (g || d->al.guard_bad)
    vf_fail("guard", "%s: %d guard bytes overwritten", when, g + d->al.guard_bad);
  int e = dec_close(d);
  if (e)
    vf_fail("delete-code", "%s: delete returned %x", when, e);
  if (d->al.guard_bad)
    vf_fail("guard", "%s: %d guard bytes overwritten", when, d->al.guard_bad);
  if (al_live(&d->al))
    vf_fail("leak", "%s: %d of %d blocks not released", when, al_live(&d->al), live);
  if (d->al.bad_free)
    vf_fail("bad-free", "%s: %d pointers released that were never handed out", when, d->al.bad_free);
  if (d->al.double_free)
    vf_fail("double-free", "%s: %d blocks released twice", when, d->al.double_free);
}
static blob st;
static int lim;
static int deliver(void *self, int space, int call)
{
  (void)self;
  (void)call;
  return space < lim ? space : lim;
}
int main(int argc, char **argv)
{
  vf_init(argc, argv);
  dec_t *d = (dec_t *)calloc(1, sizeof(*d));
  int fills[] = {0, 1, 2, 3};
  /* which allocation fails */
  for (int c = 0; c < NDCONF; c++)
    for (int fl = 0; fl < 4; fl++)
      for (int f = 0; f < 12; f++)
        if (vf_case("fail %d fill %d conf %s", f, fills[fl], dconfs[c].name))
        {
          dec_defaults(d);
          dconf_apply(d, &dconfs[c]);
          d->al.fill = fills[fl];
          d->al.fail_at = f;
          int e = dec_create(d);
          vf_trans++;
          int failed = d->al.calls > f;
          vf_nontriv += failed;
          vf_outcome((uint64_t)(uint32_t)e * 31 + d->al.calls);
          if (failed && !is_fatal(e))
            vf_fail("not-fatal", "allocation %d failed, create returned %x", f, e);
          if (!failed && e)
            vf_fail("create", "no allocation failed, create returned %x", e);
          check_deleted(d, failed ? "after failed create" : "after create");
          dec_free(d);
        }
  /* the same with creation parameters out of range: the failure must not be hidden by their non-fatal code */
  for (int bad = 1; bad < 32; bad++)
    for (int f = 0; f < 12; f++)
      if (vf_case("fail %d, invalid parameters %x", f, bad))
        for (int fl = 0; fl < 2; fl++)
        {
          dec_defaults(d);
          if (bad & 1)
            d->in.ui_pcm_wd_sz = 20;
          if (bad & 2)
            d->in.ui_cicp_layout_idx = 21;
          if (bad & 4)
            d->in.i_preset_id = 32;
          if (bad & 8)
            d->in.ui_effect = 9;
          if (bad & 16)
            d->in.ui_target_loudness[0] = 1, d->in.ui_target_loudness[1] = 400;
          d->al.fill = fl;
          d->al.fail_at = f;
          int e = dec_create(d);
          vf_trans++;
          int failed = d->al.calls > f;
          vf_nontriv += failed;
          vf_outcome((uint64_t)(uint32_t)e * 31 + d->al.calls);
          if (failed && !is_fatal(e))
            vf_fail("not-fatal", "allocation %d failed, create returned %x", f, e);
          if (!failed && (!e || is_fatal(e)))
            vf_fail("create", "no allocation failed, parameters invalid, create returned %x", e);
          check_deleted(d, failed ? "after failed create" : "after create");
          dec_free(d);
        }
  /* deletion at every stage */
  int nf = vf_thorough ? 24 : 10;
  for (int s = 0; s < ST_ALL; s++)
    for (int c = 0; c < NDCONF; c++)
    {
      if (!dconf_ok(s, c) || (!vf_thorough && c > 3 && s != ST_STEREO))
        continue;
      if (vf_case("delete at every stage, stream %s conf %s", st_name[s], dconfs[c].name))
      {
        st = st_build(s, nf);
        lim = 700;
        for (int stage = 0; stage < 2000; stage += stage < 4 ? 1 : vf_thorough ? 1 : 3)
        {
          dec_defaults(d);
          dconf_apply(d, &dconfs[c]);
          d->st = st;
          d->deliver = deliver;
          int n = 0, end = 0;
          if (dec_create(d))
            vf_fail("create", "code %x", d->err_create);
          int base = d->al.calls;
          while (n < stage && !d->out.ui_init_done)
          {
            dec_init_call(d);
            if (!d->insuf)
              dec_consume(d, d->out.i_bytes_consumed);
            n++;
            if (n > 1500)
              break;
          }
          while (n < stage && !end)
          {
            dec_exec_call(d);
            if (!d->insuf)
              dec_consume(d, d->out.i_bytes_consumed);
            n++;
            end = d->eof;
          }
          vf_trans += n + 2;
          if (d->al.calls != base)
            vf_fail("late-alloc", "%d allocations after creation", d->al.calls - base);
          vf_nontriv += n > 0;
          char w[64];
          snprintf(w, sizeof(w), "after %d calls", n);
          check_deleted(d, w);
          dec_free(d);
          if (n < stage || end)
            break;
        }
        free(st.d);
      }
    }
  return vf_finish();
}
